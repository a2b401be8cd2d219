// P24: vectors, homogeneous points and transformations
#include "common.h"
using namespace H;

struct M { ld a[4][4]; };
static M of(const Matrix4d& m) { M r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.a[i][j] = m.GetElement(i, j); return r; }
static M mul(const M& x, const M& y) { M r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { ld s = 0; for (int k = 0; k < 4; k++) s += x.a[i][k] * y.a[k][j]; r.a[i][j] = s; } return r; }
static ld mx(const M& x) { ld s = 0; for (auto& r : x.a) for (ld v : r) s = std::max(s, fabsl(v)); return s; }
static V3 lin(const M& m, const V3& v) { return V3(m.a[0][0] * v.x + m.a[0][1] * v.y + m.a[0][2] * v.z, m.a[1][0] * v.x + m.a[1][1] * v.y + m.a[1][2] * v.z, m.a[2][0] * v.x + m.a[2][1] * v.y + m.a[2][2] * v.z); }
static V3 aff(const M& m, const V3& v) { return lin(m, v) + V3(m.a[0][3], m.a[1][3], m.a[2][3]); }
static ld det3(const M& m) { return V3(m.a[0][0], m.a[1][0], m.a[2][0]).dot(V3(m.a[0][1], m.a[1][1], m.a[2][1]).cross(V3(m.a[0][2], m.a[1][2], m.a[2][2]))); }
static ld detN(std::vector<std::vector<ld>> a)
{
	int n = a.size();
	ld d = 1;
	for (int c = 0; c < n; c++)
	{
		int p = c;
		for (int r = c + 1; r < n; r++) if (fabsl(a[r][c]) > fabsl(a[p][c])) p = r;
		if (a[p][c] == 0) return 0;
		if (p != c) { std::swap(a[p], a[c]); d = -d; }
		d *= a[c][c];
		for (int r = c + 1; r < n; r++) { ld f = a[r][c] / a[c][c]; for (int k = c; k < n; k++) a[r][k] -= f * a[c][k]; }
	}
	return d;
}
static void dumpM(Ctx& ctx, const char* n, const Matrix4d& m) { std::string s = n; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) s += strf(" %.17g", m.GetElement(i, j)); ctx.note(s); }
static void nearM(Ctx& ctx, const Matrix4d& got, const M& want, ld tol, const char* mon)
{
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ctx.near(got.GetElement(i, j), want.a[i][j], tol, mon, strf("element %d,%d", i, j).c_str());
}
static XYZ genDir(Ctx& ctx)
{
	Rng& g = ctx.rng;
	static const int sp[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, -1, 1 }, { 1, 1, 1 }, { -1, -1, 1 }, { 1, 1, 0 }, { 0, -1, 1 } };
	int k = g.irange(0, 3);
	ctx.bucket("direction", k);
	XYZ d;
	if (k == 0) { int i = g.irange(0, 7); d = XYZ(sp[i][0], sp[i][1], sp[i][2]) * g.sgn(); }
	else if (k == 1) { int i = g.irange(0, 7); d = XYZ(sp[i][0], sp[i][1], sp[i][2]) + genPoint(g, g.logu(1e-9, 1e-2)); }
	else do d = genPoint(g, 1); while (d.Length() < 0.05);
	return d * (k == 3 ? g.logu(1e-9, 1e9) : 1.0);
}
static Matrix4d genM(Ctx& ctx, int kind)
{
	Rng& g = ctx.rng;
	switch (kind)
	{
	case 0: return Matrix4d::CreateTranslation(genPoint(g, g.logu(0.1, 100)));
	case 1: return Matrix4d::CreateRotation(genDir(ctx), g.uni(-7, 7));
	case 2: return Matrix4d::CreateRotationAtPoint(genPoint(g, 10), genDir(ctx), g.uni(-7, 7));
	case 3: return Matrix4d::CreateScale(XYZ(g.sgn() * g.logu(0.1, 10), g.sgn() * g.logu(0.1, 10), g.sgn() * g.logu(0.1, 10)));
	case 4: return Matrix4d::CreateReflection(genDir(ctx), g.chance(0.3) ? 0 : g.uni(-10, 10));
	case 5: return Matrix4d();
	default:
		{
			Matrix4d m;
			for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m.SetElement(i, j, g.uni(-3, 3));
			return m;
		}
	}
}
SCENARIO(vectors, 2)
{
	Rng& g = ctx.rng;
	double s = g.logu(1e-3, 1e4);
	XYZ a = genPoint(g, s), b = g.chance(0.15) ? a * g.uni(-2, 2) : genPoint(g, s * g.logu(0.01, 100));
	double k = g.sgn() * g.logu(1e-3, 1e3);
	ctx.dump("a", a); ctx.dump("b", b);
	V3 A(a), B(b);
	ld la = A.len(), lb = B.len(), t = 1e-14L;
	auto pt = [&](const XYZ& got, const V3& want, ld tol, const char* mon, const char* w) { nearPt(ctx, V3(got), want, tol, mon, w); };
	pt(a + b, A + B, t * (la + lb), "vector-algebra", "a+b"); pt(a.Add(b), A + B, t * (la + lb), "vector-algebra", "Add");
	pt(a - b, A - B, t * (la + lb), "vector-algebra", "a-b"); pt(a.Substract(b), A - B, t * (la + lb), "vector-algebra", "Substract");
	pt(-a, A * -1, 0, "vector-algebra", "-a"); pt(a.Negative(), A * -1, 0, "vector-algebra", "Negative");
	pt(a * k, A * k, t * la * fabsl(k), "vector-algebra", "a*k"); pt(k * a, A * k, t * la * fabsl(k), "vector-algebra", "k*a"); pt(a / k, A / k, t * la / fabsl(k), "vector-algebra", "a/k");
	XYZ c = a; c += b; pt(c, A + B, t * (la + lb), "vector-algebra", "+="); c = a; c -= b; pt(c, A - B, t * (la + lb), "vector-algebra", "-=");
	c = a; c *= k; pt(c, A * k, t * la * fabsl(k), "vector-algebra", "*="); c = a; c /= k; pt(c, A / k, t * la / fabsl(k), "vector-algebra", "/=");
	ctx.near(a.DotProduct(b), A.dot(B), t * la * lb, "vector-products", "dot"); ctx.near(a * b, A.dot(B), t * la * lb, "vector-products", "operator* is the dot product");
	pt(a.CrossProduct(b), A.cross(B), t * la * lb, "vector-products", "cross"); pt(a ^ b, A.cross(B), t * la * lb, "vector-products", "operator^ is the cross product");
	ctx.near(a.Length(), la, t * la, "vector-length", "Length"); ctx.near(a.SqrLength(), la * la, t * la * la, "vector-length", "SqrLength");
	ctx.near(a.Distance(b), (A - B).len(), t * (la + lb), "vector-length", "Distance");
	XYZ a0 = a;
	pt(a.Normalize(), A / la, t, "normalize", "Normalize");
	ctx.check(a.Normalize().IsUnit(), "normalize", "not unit"); ctx.check(XYZ(0, 0, 0).Normalize().IsZero(), "normalize", "zero vector");
	ctx.check(memcmp(&a0, &a, sizeof a) == 0, "normalize", "changed its argument");
	if (la > 0)
	{
		// directions of any length, well below the tolerance of the comparisons and well above
		double f = g.logu(1e-12, 1e12) / (double)la;
		XYZ tiny = a * f;
		pt(tiny.Normalize(), A / la, t * 10, "normalize", strf("vector of length %.3g", f * (double)la).c_str());
		UV flat(tiny.GetX(), tiny.GetY());
		ld lf = sqrtl((ld)flat.GetU() * flat.GetU() + (ld)flat.GetV() * flat.GetV());
		if (lf > 1e-100L) nearPt(ctx, V3(flat.Normalize().GetU(), flat.Normalize().GetV(), 0), V3(flat.GetU() / lf, flat.GetV() / lf, 0), t * 10, "normalize", "two dimensions");
	}
	{
		ld cr = A.cross(B).len(), ang = la > 0 && lb > 0 ? atan2l(cr, A.dot(B)) : 0, got = a.AngleTo(b);
		if (la > 1e-9L && lb > 1e-9L) { ctx.near(got, ang, 1e-7L, "angle", "AngleTo"); ctx.near(b.AngleTo(a), got, 1e-12L, "angle", "symmetric"); }
	}
	ctx.check(a.IsZero() == (la <= 1e-6L) || fabsl(la - 1e-6L) < 1e-12L, "predicates", "IsZero");
	ctx.check(a.IsAlmostEqualTo(a) && a.IsAlmostEqualTo(b) == b.IsAlmostEqualTo(a), "predicates", "IsAlmostEqualTo symmetric");
	if ((A - B).len() > 1e-4L * (1 + la + lb)) ctx.check(!a.IsAlmostEqualTo(b), "predicates", "distinct points equal");
	for (int i = 0; i < 3; i++) { XYZ d = a; d[i] += g.sgn() * 1e-3 * (1 + la); ctx.check(!d.IsAlmostEqualTo(a), "predicates", strf("difference in coordinate %d overlooked", i)); d = a; d[i] += 1e-8; ctx.check(d.IsAlmostEqualTo(a), "predicates", strf("rounding in coordinate %d not tolerated", i)); }
	XYZ e; e.SetX(a.GetX()); e.SetY(a.Y()); e.SetZ(a[2]);
	ctx.check(e.X() == a[0] && e.GetY() == a[1] && e.GetZ() == a.Z(), "accessors", "XYZ");
	// two dimensions
	UV p(a.GetX(), a.GetY()), q(b.GetX(), b.GetY());
	V3 P(p.GetU(), p.GetV(), 0), Q(q.GetU(), q.GetV(), 0);
	auto p2 = [&](const UV& got, const V3& want, ld tol, const char* w) { nearPt(ctx, V3(got.GetU(), got.GetV(), 0), want, tol, "uv-algebra", w); };
	p2(p + q, P + Q, t * (la + lb), "+"); p2(p - q, P - Q, t * (la + lb), "-"); p2(p.Add(q), P + Q, t * (la + lb), "Add"); p2(p.Substract(q), P - Q, t * (la + lb), "Substract");
	p2(-p, P * -1, 0, "neg"); p2(p.Negative(), P * -1, 0, "Negative"); p2(p * k, P * k, t * la * fabsl(k), "*k"); p2(k * p, P * k, t * la * fabsl(k), "k*"); p2(p / k, P / k, t * la / fabsl(k), "/k");
	UV r = p; r += q; p2(r, P + Q, t * (la + lb), "+="); r = p; r -= q; p2(r, P - Q, t * (la + lb), "-="); r = p; r *= k; p2(r, P * k, t * la * fabsl(k), "*="); r = p; r /= k; p2(r, P / k, t * la / fabsl(k), "/=");
	ctx.near(p.DotProduct(q), P.dot(Q), t * la * lb, "uv-algebra", "dot"); ctx.near(p * q, P.dot(Q), t * la * lb, "uv-algebra", "operator*"); ctx.near(p.CrossProduct(q), P.cross(Q).z, t * la * lb, "uv-algebra", "cross"); ctx.near(p ^ q, P.cross(Q).z, t * la * lb, "uv-algebra", "operator^");
	ctx.near(p.Length(), P.len(), t * la, "uv-algebra", "Length"); ctx.near(p.SqrLength(), P.dot(P), t * la * la, "uv-algebra", "SqrLength"); ctx.near(p.Distance(q), (P - Q).len(), t * (la + lb), "uv-algebra", "Distance");
	if (P.len() > 0) { p2(p.Normalize(), P / P.len(), t, "Normalize"); ctx.check(p.Normalize().IsUnit(), "uv-algebra", "IsUnit"); }
	for (int i = 0; i < 2; i++) { UV d = p; d[i] += g.sgn() * 1e-3 * (1 + la); ctx.check(!d.IsAlmostEqualTo(p), "predicates", strf("uv difference in coordinate %d overlooked", i)); }
	ctx.check(p.IsAlmostEqualTo(p), "predicates", "uv reflexive");
	UVW x; x.SetU(a[0]); x.SetV(a[1]); x.SetW(a[2]);
	UVW y(a[0], a[1], a[2]);
	ctx.check(x.GetU() == a[0] && x.GetV() == a[1] && x.GetW() == a[2] && y.U() == a[0] && y.V() == a[1] && y.W() == a[2], "accessors", "UVW");
}
SCENARIO(homogeneous, 1)
{
	Rng& g = ctx.rng;
	XYZ a = genPoint(g, g.logu(1e-2, 1e3)), b = genPoint(g, 10);
	double w = g.logu(1e-3, 1e3), v = g.logu(1e-3, 1e3), k = g.sgn() * g.logu(1e-2, 1e2);
	ctx.dump("a", a); ctx.note(strf("w %.17g", w));
	XYZW h(a, w), q(b, v);
	ld la = V3(a).len(), lb = V3(b).len(), t = 1e-13L;
	nearPt(ctx, V3(h.ToXYZ(true)), V3(a), t * la, "homogeneous", "projection of a weighted point");
	nearPt(ctx, V3(h.ToXYZ(false)), V3(a) * w, t * la * w, "homogeneous", "numerator");
	ctx.check(h.GetW() == w && h.W() == w && h[3] == w, "homogeneous", "weight");
	XYZW s = h + q, d = h - q;
	ld m = t * (la * w + lb * v + w + v);
	auto h4 = [&](const XYZW& got, ld x, ld y, ld z, ld ww, ld tol, const char* n) { ctx.near(got.GetWX(), x, tol, "homogeneous-algebra", n); ctx.near(got.GetWY(), y, tol, "homogeneous-algebra", n); ctx.near(got.GetWZ(), z, tol, "homogeneous-algebra", n); ctx.near(got.GetW(), ww, tol, "homogeneous-algebra", n); };
	h4(s, (ld)h[0] + q[0], (ld)h[1] + q[1], (ld)h[2] + q[2], (ld)h[3] + q[3], m, "+");
	h4(d, (ld)h[0] - q[0], (ld)h[1] - q[1], (ld)h[2] - q[2], (ld)h[3] - q[3], m, "-");
	XYZW e = h; e += q;
	h4(e, (ld)h[0] + q[0], (ld)h[1] + q[1], (ld)h[2] + q[2], (ld)h[3] + q[3], m, "+=");
	h4(h * k, (ld)h[0] * k, (ld)h[1] * k, (ld)h[2] * k, (ld)h[3] * k, m * fabsl(k), "*k"); h4(k * h, (ld)h[0] * k, (ld)h[1] * k, (ld)h[2] * k, (ld)h[3] * k, m * fabsl(k), "k*"); h4(h / k, (ld)h[0] / k, (ld)h[1] / k, (ld)h[2] / k, (ld)h[3] / k, m / fabsl(k), "/k");
	ctx.near(h.Distance(q), sqrtl(powl((ld)h[0] - q[0], 2) + powl((ld)h[1] - q[1], 2) + powl((ld)h[2] - q[2], 2) + powl((ld)h[3] - q[3], 2)), m, "homogeneous-algebra", "Distance");
	e = h; e.SetW(v);
	ctx.check(e.GetW() == v, "homogeneous", "SetW"); nearPt(ctx, V3(e.ToXYZ(true)), V3(a), 1e-12L * la, "homogeneous", "SetW moved the point");
	ctx.check(e.IsAlmostEqualTo(h), "homogeneous", "IsAlmostEqualTo must ignore the weight");
	XYZW f(a + XYZ(0, 0, 1e-3 * (1 + la)), w);
	ctx.check(!f.IsAlmostEqualTo(h), "homogeneous", "different points equal");
}
SCENARIO(elementary, 3)
{
	Rng& g = ctx.rng;
	XYZ p = genPoint(g, g.logu(0.1, 100)), q = genPoint(g, g.logu(0.1, 100));
	ctx.dump("point", p);
	V3 P(p), Q(q);
	ld lp = P.len() + 1;
	int kind = g.irange(0, 4);
	ctx.bucket("transformation", kind);
	if (kind == 0)
	{
		Matrix4d m = Matrix4d::CreateTranslation(q);
		ld tol = 1e-14L * (lp + Q.len());
		nearPt(ctx, V3(m.OfPoint(p)), P + Q, tol, "translation", "point"); nearPt(ctx, V3(m.OfVector(p)), P, tol, "translation", "vectors are not moved");
		ctx.check(m.IsTranslation() && !m.HasReflection(), "translation", "IsTranslation");
		ctx.check(m.IsIdentity() == (fabs(q[0]) <= 1e-6 && fabs(q[1]) <= 1e-6 && fabs(q[2]) <= 1e-6), "identity-test", "translation");
		Matrix4d z = Matrix4d::CreateTranslation(XYZ(q[0], -q[0], 0));
		if (fabs(q[0]) > 1e-4) ctx.check(!z.IsIdentity(), "identity-test", "translation by (t,-t,0) taken for the identity");
	}
	else if (kind == 1)
	{
		XYZ ax = genDir(ctx), o = g.chance(0.3) ? XYZ() : q;
		double w = g.chance(0.2) ? g.irange(-4, 4) * Constants::Pi / 2 : g.uni(-8, 8);
		ctx.dump("axis", ax); ctx.dump("at", o); ctx.note(strf("angle %.17g", w));
		V3 n = V3(ax) / V3(ax).len(), O(o);
		V3 r = P - O, want = O + n * n.dot(r) + (r - n * n.dot(r)) * cosl(w) + n.cross(r) * sinl(w);
		Matrix4d m = Matrix4d::CreateRotationAtPoint(o, ax, w);
		ld tol = 1e-13L * (lp + O.len());
		nearPt(ctx, V3(m.OfPoint(p)), want, tol, "rotation", "rotated point"); nearPt(ctx, V3(m.OfPoint(o)), O, tol, "rotation", "fixed point");
		Matrix4d m0 = Matrix4d::CreateRotation(ax, w);
		nearPt(ctx, V3(m0.OfPoint(p)), n * n.dot(P) + (P - n * n.dot(P)) * cosl(w) + n.cross(P) * sinl(w), tol, "rotation", "about the origin"); nearPt(ctx, V3(m.OfVector(p)), V3(m0.OfPoint(p)), tol, "rotation", "vector");
		ctx.near(m.GetDeterminant(), 1, 1e-12L, "rotation", "determinant"); ctx.check(!m.HasReflection(), "rotation", "HasReflection");
		bool turn = fabsl(remainderl(w, 2 * acosl(-1.0L))) < 1e-7L;
		if (!turn && fabsl(remainderl(w, 2 * acosl(-1.0L))) > 1e-2L) { ctx.check(!m0.IsIdentity(), "identity-test", "rotation taken for the identity"); ctx.check(!m0.IsTranslation(), "identity-test", "rotation taken for a translation"); }
		XYZ sc = m.GetScale();
		nearPt(ctx, V3(sc), V3(1, 1, 1), 1e-13L, "rotation", "scale");
	}
	else if (kind == 2)
	{
		XYZ s(g.sgn() * g.logu(1e-2, 1e2), g.sgn() * g.logu(1e-2, 1e2), g.sgn() * g.logu(1e-2, 1e2));
		Matrix4d m = Matrix4d::CreateScale(s);
		nearPt(ctx, V3(m.OfPoint(p)), V3((ld)s[0] * p[0], (ld)s[1] * p[1], (ld)s[2] * p[2]), 1e-12L * lp, "scale", "point");
		nearPt(ctx, V3(m.GetScale()), V3(fabs(s[0]), fabs(s[1]), fabs(s[2])), 1e-11L, "scale", "GetScale");
		ld d = (ld)s[0] * s[1] * s[2];
		if (fabsl(d) > 5e-6L) ctx.check(m.HasReflection() == (d < 0), "reflection-test", strf("scale determinant %.6Lg", d));
		ctx.near(m.GetDeterminant(), d, 1e-12L * fabsl(d), "scale", "determinant");
	}
	else if (kind == 3)
	{
		XYZ nn = genDir(ctx);
		double d = g.chance(0.3) ? 0 : g.uni(-20, 20);
		ctx.dump("normal", nn); ctx.note(strf("distance %.17g", d));
		Matrix4d m = d == 0 ? Matrix4d::CreateReflection(nn) : Matrix4d::CreateReflection(nn, d);
		V3 n = V3(nn) / V3(nn).len();
		ld tol = 1e-13L * (lp + fabsl(d));
		// the mirror plane n.x + d = 0
		nearPt(ctx, V3(m.OfPoint(p)), P - n * (2 * (n.dot(P) + d)), tol, "reflection", "point");
		nearPt(ctx, V3(m.OfPoint(m.OfPoint(p))), P, tol, "reflection", "twice");
		V3 f = P - n * (n.dot(P) + d);
		nearPt(ctx, V3(m.OfPoint(f.xyz())), f, tol, "reflection", "points of the mirror stay");
		nearPt(ctx, V3(m.OfVector(p)), P - n * (2 * n.dot(P)), tol, "reflection", "vector");
		ctx.check(m.HasReflection(), "reflection-test", "not recognised"); ctx.near(m.GetDeterminant(), -1, 1e-12L, "reflection", "determinant");
	}
	else
	{
		// a frame given by columns
		XYZ x = genPoint(g, 2), y = genPoint(g, 2), z = genPoint(g, 2);
		Matrix4d m(x, y, z, q);
		nearPt(ctx, V3(m.OfPoint(p)), V3(x) * p[0] + V3(y) * p[1] + V3(z) * p[2] + Q, 1e-13L * (lp * 6 + Q.len()), "frame", "point");
		nearPt(ctx, V3(m.OfVector(p)), V3(x) * p[0] + V3(y) * p[1] + V3(z) * p[2], 1e-13L * lp * 6, "frame", "vector");
		ctx.check(!memcmp(&x, &(const XYZ&)m.GetBasisX(), sizeof x) && !memcmp(&y, &(const XYZ&)m.GetBasisY(), sizeof x) && !memcmp(&z, &(const XYZ&)m.GetBasisZ(), sizeof x) && !memcmp(&q, &(const XYZ&)m.GetBasisW(), sizeof x), "frame", "basis");
		Matrix4d k; k.SetBasisX(x); k.SetBasisY(y); k.SetBasisZ(z); k.SetBasisW(q);
		nearM(ctx, k, of(m), 0, "frame");
		ld d = det3(of(m));
		if (fabsl(d) > 5e-6L) ctx.check(m.HasReflection() == (d < 0), "reflection-test", strf("frame determinant %.6Lg", d));
	}
}
SCENARIO(composition, 2)
{
	Rng& g = ctx.rng;
	int n = g.irange(2, 5);
	Matrix4d m;
	M R = of(m);
	XYZ p = genPoint(g, 10), q = p;
	for (int i = 0; i < n; i++)
	{
		int k = g.irange(0, 6);
		Matrix4d x = genM(ctx, k);
		ctx.bucket("factor", k);
		dumpM(ctx, "factor", x);
		R = mul(of(x), R);
		Matrix4d via = x.Multiply(m);
		m = x * m;
		for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) ctx.check(via.GetElement(a, b) == m.GetElement(a, b), "composition", "Multiply and operator* differ");
		q = x.OfPoint(q);
	}
	ld tol = 1e-12L * (1 + mx(R)) * 10;
	nearM(ctx, m, R, tol, "composition");
	nearPt(ctx, V3(m.OfPoint(p)), aff(R, V3(p)), tol * 10, "composition", "the product applied to a point");
	if (mx(R) < 1e4) nearPt(ctx, V3(m.OfPoint(p)), V3(q), 1e-7L, "composition", "the product is the composition");
	double w = g.logu(1e-2, 1e2);
	XYZW h = m.OfWeightedPoint(XYZW(p, w));
	nearPt(ctx, V3(h.ToXYZ(true)), aff(R, V3(p)), tol * 10, "weighted-point", "projected"); ctx.near(h.GetW(), w, 1e-14L * w, "weighted-point", "weight");
	Matrix4d t = m.GetTranspose();
	for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) ctx.check(t.GetElement(a, b) == m.GetElement(b, a), "transpose", "element");
	ld d = det3(R);
	ld scl = V3(R.a[0][0], R.a[1][0], R.a[2][0]).len() * V3(R.a[0][1], R.a[1][1], R.a[2][1]).len() * V3(R.a[0][2], R.a[1][2], R.a[2][2]).len();
	ctx.near(m.GetDeterminant(), d, 1e-11L * (1 + scl), "determinant", "composed");
	if (fabsl(d) > 1e-4L + 1e-9L * scl) ctx.check(m.HasReflection() == (d < 0), "reflection-test", strf("determinant %.6Lg", d));
	Matrix4d inv;
	if (fabsl(d) > 1e-3L * scl && fabsl(d) > 1e-9L)
	{
		ctx.check(m.GetInverse(inv), "inverse", "invertible matrix refused");
		M I = mul(of(inv), of(m));
		ld e = 1e-11L * (1 + mx(of(inv))) * (1 + mx(R)) * 10;
		for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) ctx.near(I.a[a][b], a == b, e, "inverse", strf("element %d,%d of the product", a, b).c_str());
		Matrix4d s = m + inv, f = m - inv;
		for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { ctx.check(s.GetElement(a, b) == m.GetElement(a, b) + inv.GetElement(a, b) && f.GetElement(a, b) == m.GetElement(a, b) - inv.GetElement(a, b), "matrix-sum", "element"); }
	}
}
SCENARIO(general, 1)
{
	// general 4x4 matrices: determinant, inverse, projective images, singular matrices
	Rng& g = ctx.rng;
	Matrix4d m;
	std::vector<std::vector<ld>> a(4, std::vector<ld>(4));
	bool integer = g.chance(0.3);
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.SetElement(i, j, integer ? g.irange(-3, 3) : g.uni(-3, 3));
	int sing = g.chance(0.35) ? g.irange(1, 3) : 0;
	if (sing == 1) { int r = g.irange(0, 3); for (int j = 0; j < 4; j++) m.SetElement(r, j, 0); }
	if (sing == 2) { int r = g.irange(0, 3), q = (r + g.irange(1, 3)) % 4; double f = 1 << g.irange(0, 2); for (int j = 0; j < 4; j++) m.SetElement(r, j, f * m.GetElement(q, j)); }
	if (sing == 3) { int r = g.irange(0, 3); for (int j = 0; j < 4; j++) m.SetElement(j, r, 0); }
	ctx.bucket("singular", sing);
	dumpM(ctx, "matrix", m);
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a[i][j] = m.GetElement(i, j);
	ld d = sing ? 0 : detN(a);
	ctx.near(m.GetDeterminant(), d, 1e-11L, "determinant", "general matrix");
	Matrix4d inv, keep = m;
	bool ok = m.GetInverse(inv);
	if (sing) ctx.check(!ok, "inverse-refuses-singular", "a singular matrix was inverted");
	else if (fabsl(d) > 1e-2L)
	{
		ctx.check(ok, "inverse", "invertible matrix refused");
		M I = mul(of(inv), of(m));
		for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) ctx.near(I.a[x][y], x == y, 1e-9L / fabsl(d), "inverse", "general");
	}
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ctx.check(m.GetElement(i, j) == keep.GetElement(i, j), "input-untouched", "matrix");
	XYZ p = genPoint(g, 5);
	ld h[4];
	for (int i = 0; i < 4; i++) h[i] = a[i][0] * p[0] + a[i][1] * p[1] + a[i][2] * p[2] + a[i][3];
	if (fabsl(h[3]) > 1e-2L) nearPt(ctx, V3(m.OfPoint(p)), V3(h[0] / h[3], h[1] / h[3], h[2] / h[3]), 1e-9L, "projective", "OfPoint divides by the homogeneous coordinate");
}
SCENARIO(identity, 1)
{
	// the identity with one, two or three elements disturbed
	Rng& g = ctx.rng;
	Matrix4d m;
	int n = g.irange(0, 4);
	bool id = true, tr = true;
	double e = g.logu(1e-3, 10);
	int cell[2] = { -1, -1 };
	for (int k = 0; k < n; k++)
	{
		int i = g.irange(0, 3), j = g.irange(0, 3);
		if (i == 3 && j == 3) continue;
		if (k == 1 && g.chance(0.7)) { m.SetElement(i, j, (i == j) + (cell[0] == cell[1] ? e : -e)); }
		else m.SetElement(i, j, (i == j) + g.sgn() * e);
		cell[0] = i; cell[1] = j;
	}
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (fabs(m.GetElement(i, j) - (i == j)) > 1e-6) { id = false; if (!(j == 3 && i < 3)) tr = false; }
	dumpM(ctx, "matrix", m);
	ctx.bucket("identity", id); ctx.bucket("translation", tr);
	ctx.check(m.IsIdentity() == id, "identity-test", "IsIdentity"); ctx.check(m.IsTranslation() == tr, "identity-test", "IsTranslation");
}
SCENARIO(orthogonal, 1)
{
	XYZ d = genDir(ctx);
	ctx.dump("direction", d);
	XYZ o = XYZ::CreateRandomOrthogonal(d);
	ctx.near(V3(o).len(), 1, 1e-9L, "random-orthogonal", "unit length"); ctx.near(V3(o).dot(V3(d)) / V3(d).len(), 0, 1e-8L, "random-orthogonal", "orthogonal");
}
SCENARIO(curves, 1)
{
	// transforming a curve or the control net transforms every point
	Rng& g = ctx.rng;
	CurveOpt o; o.maxWeightMode = 1;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	Matrix4d m = genM(ctx, g.irange(0, 6));
	dumpM(ctx, "matrix", m);
	NurbsCurve::CreateTransformed(c, m, r);
	M R = of(m);
	double t = genParam(ctx, c);
	nearPt(ctx, refPoint(r, t), aff(R, refPoint(c, t)), 1e-10L * weightRatio(c) * (1 + mx(R)) * (1 + maxAbs(c)), "transformed-curve", strf("at %.17g", t));
	ctx.check(r.Degree == c.Degree && r.KnotVector == c.KnotVector, "transformed-curve", "degree or knots");
}
#include "main.inc"
