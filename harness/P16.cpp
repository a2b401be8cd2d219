// P16: swap, reverse, reparametrise, closedness and bounding boxes of surfaces
#include "surf.hpp"
using namespace H;

SCENARIO(swap, 2)
{
	SurfOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = true;
	LN_NurbsSurface s = genSurface(ctx, o), s0 = s, r = dirtySurface(), b = dirtySurface();
	NurbsSurface::Swap(s, r);
	ctx.check(identicalS(s, s0), "input-untouched", "Swap modified its input");
	validSurface(ctx, r, "swap-valid");
	ctx.check(r.DegreeU == s.DegreeV && r.DegreeV == s.DegreeU && r.KnotVectorU == s.KnotVectorV && r.KnotVectorV == s.KnotVectorU, "swap-structure", "degrees or knots are not exchanged");
	gridSame(ctx, s, r, surfTol(s), "swap-same-surface", 2, [](ld u, ld v, ld& a, ld& b) { a = v; b = u; });
	NurbsSurface::Swap(r, b);
	ctx.check(identicalS(s, b), "swap-involution", "swapping twice is not the identity");
	// in place
	LN_NurbsSurface z = s;
	NurbsSurface::Swap(z, z);
	ctx.check(identicalS(z, r), "swap-in-place", "swapping in place differs");
}

SCENARIO(reverse, 4)
{
	SurfOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = true;
	LN_NurbsSurface s = genSurface(ctx, o), s0 = s, r = ctx.rng.chance(0.5) ? dirtySurface() : LN_NurbsSurface();
	int k = ctx.rng.irange(0, 2);
	SurfaceDirection d = k == 0 ? SurfaceDirection::All : k == 1 ? SurfaceDirection::UDirection : SurfaceDirection::VDirection;
	ctx.bucket("direction", k == 0 ? "all" : k == 1 ? "u" : "v");
	NurbsSurface::Reverse(s, d, r);
	ctx.check(identicalS(s, s0), "input-untouched", "Reverse modified its input");
	validSurface(ctx, r, "reverse-valid");
	ctx.check(r.DegreeU == s.DegreeU && r.DegreeV == s.DegreeV, "reverse-structure", "degree changed");
	ctx.check(fabs(loU(r) - loU(s)) < 1e-9 * (1 + fabs(loU(s))) && fabs(hiU(r) - hiU(s)) < 1e-9 * (1 + fabs(hiU(s))) && fabs(loV(r) - loV(s)) < 1e-9 * (1 + fabs(loV(s))) && fabs(hiV(r) - hiV(s)) < 1e-9 * (1 + fabs(hiV(s))) || !(s.KnotVectorU[0] == loU(s) && s.KnotVectorV[0] == loV(s)), "reverse-domain", "domain changed");
	bool fu = k != 2, fv = k != 1;
	ld ku = (ld)s.KnotVectorU.front() + s.KnotVectorU.back(), kv = (ld)s.KnotVectorV.front() + s.KnotVectorV.back();
	gridSame(ctx, s, r, 1e2L * surfTol(s), "reverse-same-surface", 3, [=](ld u, ld v, ld& a, ld& b) { a = fu ? ku - u : u; b = fv ? kv - v : v; });
}

SCENARIO(reparametrize, 3)
{
	SurfOpt o;
	o.closeChance = 0.1;
	LN_NurbsSurface s = genSurface(ctx, o), s0 = s, r = dirtySurface();
	Rng& g = ctx.rng;
	double a = g.uni(-5, 5), b = a + g.logu(0.2, 20), c = g.uni(-5, 5), d = c + g.logu(0.2, 20);
	int same = g.irange(0, 3);
	if (same == 1) { a = loU(s); b = hiU(s); }
	if (same == 2) { c = loV(s); d = hiV(s); }
	ctx.bucket("unchanged-direction", same == 1 ? "u" : same == 2 ? "v" : "none");
	ctx.note(strf("to [%.17g,%.17g]x[%.17g,%.17g]", a, b, c, d));
	NurbsSurface::Reparametrize(s, a, b, c, d, r);
	ctx.check(identicalS(s, s0), "input-untouched", "Reparametrize modified its input");
	validSurface(ctx, r, "reparam-valid");
	ctx.near(loU(r), a, 1e-6L * (1 + fabsl(a)), "reparam-domain", "minimum u");
	ctx.near(hiU(r), b, 1e-6L * (1 + fabsl(b)), "reparam-domain", "maximum u");
	ctx.near(loV(r), c, 1e-6L * (1 + fabsl(c)), "reparam-domain", "minimum v");
	ctx.near(hiV(r), d, 1e-6L * (1 + fabsl(d)), "reparam-domain", "maximum v");
	ld lu = loU(s), hu = hiU(s), lv = loV(s), hv = hiV(s), ra = loU(r), rb = hiU(r), rc = loV(r), rd = hiV(r);
	gridSame(ctx, s, r, 1e3L * surfTol(s), "reparam-same-surface", 2, [=](ld u, ld v, ld& x, ld& y) { x = ra + (u - lu) / (hu - lu) * (rb - ra); y = rc + (v - lv) / (hv - lv) * (rd - rc); });
}

SCENARIO(closed, 2)
{
	SurfOpt o;
	o.closeChance = 0.1;
	o.maxWeightMode = 1;
	o.scale = ctx.rng.logu(1, 100);
	LN_NurbsSurface s = genSurface(ctx, o);
	Rng& g = ctx.rng;
	int n = s.ControlPoints.size(), m = s.ControlPoints[0].size();
	bool cu = g.chance(0.5) && n > 2, cv = g.chance(0.5) && m > 2;
	if (cu) s.ControlPoints[n - 1] = s.ControlPoints[0];
	if (cv) for (auto& row : s.ControlPoints) row[m - 1] = row[0];
	if (cu && g.chance(0.3)) { s.ControlPoints[n - 1][g.irange(0, m - 1)] = XYZW(genPoint(g, 5 * o.scale) + XYZ(9 * o.scale, 0, 0), 1); cu = false; if (cv) { for (auto& row : s.ControlPoints) row[m - 1] = row[0]; bool same = true; for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) if (s.ControlPoints[0][j][k] != s.ControlPoints[n - 1][j][k]) same = false; cu = same; } }
	ctx.bucket("closedU", cu);
	ctx.bucket("closedV", cv);
	ctx.dump("surface", s);
	if (cu == false) { ld d = 0; for (int j = 0; j < m; j++) d = std::max(d, dist(V4(s.ControlPoints[0][j]).proj(), V4(s.ControlPoints[n - 1][j]).proj())); if (d < 1e-2L) return; }
	if (cv == false) { ld d = 0; for (int i = 0; i < n; i++) d = std::max(d, dist(V4(s.ControlPoints[i][0]).proj(), V4(s.ControlPoints[i][m - 1]).proj())); if (d < 1e-2L) return; }
	ctx.check(NurbsSurface::IsClosed(s, true) == cu, "closed-u", cu ? "surface closed in u reported open" : "surface open in u reported closed");
	ctx.check(NurbsSurface::IsClosed(s, false) == cv, "closed-v", cv ? "surface closed in v reported open" : "surface open in v reported closed");
}

SCENARIO(boxes, 4)
{
	SurfOpt o;
	o.closeChance = 0.1;
	LN_NurbsSurface s = genSurface(ctx, o), s0 = s;
	ld tol = 100 * surfTol(s);
	LN_BoundingBox3d b = NurbsSurface::GetBoundingBox(s);
	LN_OrientedBoundingBox3d q = NurbsSurface::GetOrientedBoundingBox(s);
	ctx.check(identicalS(s, s0), "input-untouched", "a bounding box modified its input");
	V3 mn(1e30L, 1e30L, 1e30L), mx(-1e30L, -1e30L, -1e30L);
	for (auto& r : s.ControlPoints)
		for (auto& p : r)
		{
			V3 v = V4(p).proj();
			mn = V3(std::min(mn.x, v.x), std::min(mn.y, v.y), std::min(mn.z, v.z));
			mx = V3(std::max(mx.x, v.x), std::max(mx.y, v.y), std::max(mx.z, v.z));
		}
	V3 lo3 = b.MinPoint, hi3 = b.MaxPoint;
	ctx.check(lo3.x >= mn.x - tol && lo3.y >= mn.y - tol && lo3.z >= mn.z - tol && hi3.x <= mx.x + tol && hi3.y <= mx.y + tol && hi3.z <= mx.z + tol, "box-in-net", "box is larger than the control net's box");
	ctx.check(hi3.x >= lo3.x - tol && hi3.y >= lo3.y - tol && hi3.z >= lo3.z - tol, "box-ordered", "maximum corner below the minimum corner");
	for (auto& gu : groups(s.KnotVectorU))
		for (auto& gv : groups(s.KnotVectorV))
		{
			V3 p = refPoint(s, gu.first, gv.first);
			ctx.check(p.x >= lo3.x - tol && p.y >= lo3.y - tol && p.z >= lo3.z - tol && p.x <= hi3.x + tol && p.y <= hi3.y + tol && p.z <= hi3.z + tol, "box-contains-knot-points", strf("the surface point at the knots (%.12g,%.12g) %s is outside the box", gu.first, gv.first, str(p).c_str()));
		}
	// oriented box: orthonormal axes, contains the surface, every face is touched by the net
	for (int i = 0; i < 3; i++)
		for (int j = 0; j <= i; j++)
			ctx.near(V3(q.Axes[i]).dot(V3(q.Axes[j])), i == j ? 1 : 0, 1e-9L, "obb-axes", "axes are not orthonormal");
	for (double u : sampleParams(s.DegreeU, s.KnotVectorU, 3))
		for (double v : sampleParams(s.DegreeV, s.KnotVectorV, 3))
		{
			V3 p = refPoint(s, u, v) - V3(q.Center);
			for (int k = 0; k < 3; k++) ctx.check(fabsl(p.dot(V3(q.Axes[k]))) <= q.HalfExtents[k] + tol, "obb-contains", strf("surface point at (%.12g,%.12g) outside the oriented box", u, v));
		}
	for (int k = 0; k < 3; k++)
	{
		ld a = 1e30L, e = -1e30L;
		for (auto& r : s.ControlPoints) for (auto& p : r) { ld d = (V4(p).proj() - V3(q.Center)).dot(V3(q.Axes[k])); a = std::min(a, d); e = std::max(e, d); }
		ctx.near(e, q.HalfExtents[k], tol, "obb-tight", "half extent");
		ctx.near(-a, q.HalfExtents[k], tol, "obb-tight", "half extent (other side)");
	}
}

// an oriented box turns with the surface: same extents, box axes turned along
SCENARIO(oriented_turns, 2)
{
	Rng& r = ctx.rng;
	SurfOpt o;
	o.closeChance = 0.1;
	LN_NurbsSurface s = genSurface(ctx, o);
	// rotation by a random unit quaternion
	ld q[4], n = 0;
	for (int i = 0; i < 4; i++) { q[i] = r.uni(-1, 1); n += q[i] * q[i]; }
	if (n < 0.05L) return;
	n = sqrtl(n);
	for (ld& x : q) x /= n;
	auto turn = [&](const V3& v) { V3 u(q[1], q[2], q[3]); V3 t = u.cross(v) * 2.0L; return v + t * q[0] + u.cross(t); };
	// second moments of the net in its own frame decide whether the frame is determined
	V3 c(0, 0, 0);
	int m = 0;
	for (auto& row : s.ControlPoints) for (auto& p : row) { c = c + V4(p).proj(); m++; }
	c = c / (ld)m;
	ld M[3][3] = {};
	for (auto& row : s.ControlPoints) for (auto& p : row) { V3 d = V4(p).proj() - c; ld a[3] = { d.x, d.y, d.z }; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] += a[i] * a[j] / m; }
	// Jacobi eigenvalues
	for (int sweep = 0; sweep < 60; sweep++)
		for (int i = 0; i < 3; i++)
			for (int j = i + 1; j < 3; j++)
			{
				if (fabsl(M[i][j]) < 1e-30L) continue;
				ld th = 0.5L * atan2l(2 * M[i][j], M[j][j] - M[i][i]), co = cosl(th), si = sinl(th);
				for (int k = 0; k < 3; k++) { ld a = M[k][i], b = M[k][j]; M[k][i] = co * a - si * b; M[k][j] = si * a + co * b; }
				for (int k = 0; k < 3; k++) { ld a = M[i][k], b = M[j][k]; M[i][k] = co * a - si * b; M[j][k] = si * a + co * b; }
			}
	ld e[3] = { M[0][0], M[1][1], M[2][2] };
	std::sort(e, e + 3);
	if (e[2] < 1e-4L || e[1] < 1.15L * e[0] + 1e-3L * e[2] || e[2] < 1.15L * e[1]) return;
	LN_NurbsSurface t = s;
	for (auto& row : t.ControlPoints) for (auto& p : row) { V3 v = turn(V4(p).proj()); p = XYZW(XYZ((double)v.x, (double)v.y, (double)v.z), p.GetW()); }
	LN_OrientedBoundingBox3d a = NurbsSurface::GetOrientedBoundingBox(s), b = NurbsSurface::GetOrientedBoundingBox(t);
	double ha[3] = { a.HalfExtents[0], a.HalfExtents[1], a.HalfExtents[2] }, hb[3] = { b.HalfExtents[0], b.HalfExtents[1], b.HalfExtents[2] };
	std::sort(ha, ha + 3); std::sort(hb, hb + 3);
	ld tol = 1e-7L * sqrtl(e[2]) + 100 * surfTol(s);
	for (int k = 0; k < 3; k++) ctx.near(hb[k], ha[k], tol, "obb-turns", "half extent of the turned surface");
	nearPt(ctx, V3(b.Center), turn(V3(a.Center)), 3 * tol, "obb-turns", "center of the turned surface's box");
}

PROBE(box_excludes_surface)
{
	// the box is built from the points at the knots only: a bump between knots sticks out
	LN_NurbsSurface s;
	s.DegreeU = s.DegreeV = 2;
	s.KnotVectorU = s.KnotVectorV = { 0, 0, 0, 1, 1, 1 };
	for (int i = 0; i < 3; i++) { s.ControlPoints.push_back({}); for (int j = 0; j < 3; j++) s.ControlPoints[i].push_back(XYZW(XYZ(i, j, i == 1 && j == 1 ? 4 : 0), 1)); }
	LN_BoundingBox3d b = NurbsSurface::GetBoundingBox(s);
	ctx.check(b.MaxPoint.GetZ() >= 0.99, "box-contains-surface", "the surface rises to z=1 but the box ends lower");
}
#include "main.inc"
