// P33: histories of operations.  A curve, surface or volume goes through up to twelve operations, the result of
// each being the input of the next; a shadow keeps the original object, the composed parameter map and the composed
// affine map, and after every step the object is compared with the original through them.
#include "vol.hpp"
using namespace H;

namespace
{
typedef std::function<void(const ld*, ld*)> Map; // current parameters -> parameters of the original
struct Aff
{
	V3 c[4] = { V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(0, 0, 0) };
	V3 operator()(const V3& p) const { return c[0] * p.x + c[1] * p.y + c[2] * p.z + c[3]; }
};
struct Obj
{
	int kind;            // number of parameters
	LN_NurbsCurve c;
	LN_NurbsSurface s;
	LN_NurbsVolume v;
	int deg_(int d) const { return kind == 1 ? c.Degree : kind == 2 ? (d ? s.DegreeV : s.DegreeU) : deg(v, d); }
	const Knots& kn(int d) const { return kind == 1 ? c.KnotVector : kind == 2 ? (d ? s.KnotVectorV : s.KnotVectorU) : kv(v, d); }
	double a(int d) const { return lo(deg_(d), kn(d)); }
	double b(int d) const { return hi(deg_(d), kn(d)); }
	V3 at(const ld* x) const { return kind == 1 ? refPoint(c, x[0]) : kind == 2 ? refPoint(s, x[0], x[1]) : refPoint(v, x[0], x[1], x[2]); }
	V3 lib(const ld* x) const
	{
		return kind == 1 ? V3(NurbsCurve::GetPointOnCurve(c, (double)x[0])) : kind == 2 ? V3(NurbsSurface::GetPointOnSurface(s, UV((double)x[0], (double)x[1]))) : V3(NurbsVolume::GetPointOnVolume(v, UVW((double)x[0], (double)x[1], (double)x[2])));
	}
	ld mag() const { return kind == 1 ? maxAbs(c) : kind == 2 ? maxAbs(s) : maxAbs(v); }
	ld wr() const { return kind == 1 ? weightRatio(c) : kind == 2 ? wRatio(s) : wRatio(v); }
	std::string invalid() const { return kind == 1 ? invalidCurve(c) : kind == 2 ? invalidSurface(s) : invalidVolume(v); }
	int params() const { return kind; }
	size_t size() const { size_t n = kind == 1 ? c.ControlPoints.size() : kind == 2 ? s.ControlPoints.size() * s.ControlPoints[0].size() : dim(v, 0) * dim(v, 1) * dim(v, 2); return n; }
};
struct Hist
{
	Ctx& ctx;
	Obj o, orig;
	Map f;
	Aff m;
	ld tol, scale, wmax;
	int steps = 0;
	std::string log;
	explicit Hist(Ctx& c, const Obj& x) : ctx(c), o(x), orig(x) { f = [](const ld* a, ld* b) { for (int i = 0; i < 3; i++) b[i] = a[i]; }; scale = x.mag(); wmax = x.wr(); }
	// map of one direction of the current object
	void compose(int d, std::function<ld(ld)> g)
	{
		Map old = f;
		f = [old, d, g](const ld* a, ld* b) { ld t[3] = { a[0], a[1], a[2] }; t[d] = g(a[d]); old(t, b); };
	}
	void pre(Map g) { Map old = f; f = [old, g](const ld* a, ld* b) { ld t[3] = { 0, 0, 0 }; g(a, t); old(t, b); }; }
	bool usable()
	{
		for (int d = 0; d < o.kind; d++)
		{
			auto g = groups(o.kn(d));
			double mx = std::max(fabs(o.a(d)), fabs(o.b(d)));
			for (size_t i = 0; i + 1 < g.size(); i++) if (g[i + 1].first - g[i].first < 2e-4 * (1 + mx)) return false;
		}
		return o.size() < 900 && o.wr() < 1e4L;
	}
	// an interior parameter: a knot, or well away from every knot
	bool inner(int d, double& t, int& mult)
	{
		Rng& g = ctx.rng;
		auto k = innerKnots(o.deg_(d), o.kn(d));
		if (!k.empty() && g.chance(0.35)) t = g.pick(k);
		else
		{
			t = g.uni(o.a(d), o.b(d));
			double mx = 1 + std::max(fabs(o.a(d)), fabs(o.b(d)));
			for (double u : o.kn(d)) if (fabs(u - t) < 1e-3 * mx) return false;
		}
		mult = multOf(o.kn(d), t);
		return true;
	}
	void judge(const std::string& op)
	{
		steps++;
		log += op + " ";
		ctx.note("step " + op);
		std::string e = o.invalid();
		ctx.check(e.empty(), "history-valid", "after " + log + ": invalid: " + e);
		wmax = std::max(wmax, o.wr());
		scale = std::max(scale, o.mag());
		ld t = 1e-8L * steps * wmax * (1e-2L + scale);
		int n = o.kind == 1 ? 14 : o.kind == 2 ? 20 : 24;
		for (int q = 0; q < n; q++)
		{
			ld x[3] = { 0, 0, 0 }, y[3] = { 0, 0, 0 };
			for (int d = 0; d < o.kind; d++)
			{
				int corner = 1 << o.kind;
				x[d] = q < corner ? (((q >> d) & 1) ? o.b(d) : o.a(d)) : (ld)ctx.rng.uni(o.a(d), o.b(d));
				if (q >= corner && ctx.rng.chance(0.25)) { auto k = innerKnots(o.deg_(d), o.kn(d)); if (!k.empty()) x[d] = ctx.rng.pick(k); }
			}
			f(x, y);
			for (int d = 0; d < orig.kind; d++)
			{
				ld sl = 1e-7L * (1 + fabsl(orig.a(d)) + fabsl(orig.b(d)));
				ctx.check(y[d] >= orig.a(d) - sl && y[d] <= orig.b(d) + sl, "history-domain", "after " + log + strf(": the domain maps to %.12Lg outside the original's", y[d]));
				y[d] = std::min((ld)orig.b(d), std::max((ld)orig.a(d), y[d]));
			}
			V3 want = m(orig.at(y));
			nearPt(ctx, q % 3 == 2 ? o.lib(x) : o.at(x), want, t, "history-same-geometry", "after " + log + strf("at (%.9Lg,%.9Lg,%.9Lg)", x[0], x[1], x[2]));
		}
	}
};

static void target(Rng& g, double& a, double& b)
{
	a = g.chance(0.4) ? 0.0 : std::round(g.uni(-4, 6) * 8) / 8;
	b = a + (g.chance(0.4) ? 1.0 : g.uni(1, 6));
}
static void transformNet(Ctx& ctx, Hist& h)
{
	// a well conditioned affine map
	Rng& g = ctx.rng;
	V3 c[4];
	for (int i = 0; i < 3; i++) { c[i] = V3(g.uni(-0.3, 0.3), g.uni(-0.3, 0.3), g.uni(-0.3, 0.3)); (i == 0 ? c[i].x : i == 1 ? c[i].y : c[i].z) += g.sgn() * g.uni(0.7, 1.3); }
	c[3] = V3(g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3));
	Matrix4d M(c[0].xyz(), c[1].xyz(), c[2].xyz(), c[3].xyz());
	LN_NurbsCurve r;
	NurbsCurve::CreateTransformed(h.o.c, M, r);
	h.o.c = r;
	Aff n;
	for (int i = 0; i < 3; i++) { V3 u = h.m.c[i]; n.c[i] = c[0] * u.x + c[1] * u.y + c[2] * u.z; }
	V3 u = h.m.c[3];
	n.c[3] = c[0] * u.x + c[1] * u.y + c[2] * u.z + c[3];
	h.m = n;
}

static std::string stepCurve(Hist& h)
{
	Rng& g = h.ctx.rng;
	LN_NurbsCurve c = h.o.c, r;
	double t; int m;
	bool alias = g.chance(0.2);
	if (alias) r = c;
	const LN_NurbsCurve& in = alias ? r : c;
	switch (g.irange(0, 12))
	{
	case 0:
		if (!h.inner(0, t, m) || m >= c.Degree) return "";
		NurbsCurve::InsertKnot(in, t, g.irange(1, c.Degree - m), r);
		h.o.c = r;
		return "insert";
	case 1:
	{
		std::vector<double> x;
		if (!h.inner(0, t, m) || m >= c.Degree) return "";
		for (int i = g.irange(1, c.Degree - m); i > 0; i--) x.push_back(t);
		double t2; int m2;
		if (h.inner(0, t2, m2) && m2 < c.Degree && fabs(t - t2) > 1e-2 * (1 + fabs(t))) x.push_back(t2);
		std::sort(x.begin(), x.end());
		NurbsCurve::RefineKnotVector(in, x, r);
		h.o.c = r;
		return "refine";
	}
	case 2:
		if (c.Degree >= 6) return "";
		NurbsCurve::ElevateDegree(in, g.irange(1, 7 - c.Degree > 2 ? 2 : 1), r);
		h.o.c = r;
		return "elevate";
	case 3:
	{
		NurbsCurve::Reverse(in, r);
		ld s = (ld)h.o.a(0) + h.o.b(0);
		h.compose(0, [s](ld x) { return s - x; });
		h.o.c = r;
		return "reverse";
	}
	case 4:
	{
		double a, b;
		target(g, a, b);
		ld la = lo(c), lb = hi(c);
		NurbsCurve::Reparametrize(in, a, b, r);
		ld ra = lo(r), rb = hi(r);
		h.compose(0, [=](ld x) { return la + (x - ra) / (rb - ra) * (lb - la); });
		h.o.c = r;
		return "reparametrize";
	}
	case 5:
	{
		// new = (al t + be) / (gm t + dl)
		double L = hi(c) - lo(c), root = g.chance(0.5) ? lo(c) - g.uni(1, 3) * L : hi(c) + g.uni(1, 3) * L, gm = g.chance(0.5) ? 1 : -1, dl = -gm * root, al = g.uni(1, 4) * L, be = g.uni(-1, 1);
		double det = al * dl - gm * be;
		if (fabs(det) < 0.5 * L) return "";
		if (det < 0) { al = -al; be = -be; }
		NurbsCurve::Reparametrize(in, al, be, gm, dl, r);
		// the library takes weights below its epsilon for zero: stay away from that
		for (auto& q : r.ControlPoints) if (fabs(q.GetW()) < 0.01 || fabs(q.GetW()) > 1e3) return "";
		h.compose(0, [=](ld x) { return ((ld)dl * x - be) / (al - (ld)gm * x); });
		h.o.c = r;
		return "moebius";
	}
	case 6:
		transformNet(h.ctx, h);
		return "transform";
	case 7:
	{
		if (!h.inner(0, t, m)) return "";
		LN_NurbsCurve l, q;
		h.ctx.check(NurbsCurve::SplitAt(c, t, l, q), "history-accepts", "after " + h.log + ": split refused");
		h.o.c = g.chance(0.5) ? l : q;
		return "split";
	}
	case 8:
	{
		double t2; int m2;
		if (!h.inner(0, t, m) || !h.inner(0, t2, m2) || fabs(t - t2) < 0.1 * (hi(c) - lo(c))) return "";
		NurbsCurve::Extract(in, std::min(t, t2), std::max(t, t2), r);
		h.o.c = r;
		return "extract";
	}
	case 9:
	{
		auto b = NurbsCurve::DecomposeToBeziers(c);
		auto gr = groups(c.KnotVector);
		h.ctx.check(b.size() + 1 == gr.size(), "history-accepts", "after " + h.log + ": number of Bezier pieces");
		size_t i = g.irange(0, (int)b.size() - 1);
		h.o.c = b[i];
		ld a = gr[i].first, e = gr[i + 1].first, ra = lo(b[i]), rb = hi(b[i]);
		h.compose(0, [=](ld x) { return a + (x - ra) / (rb - ra) * (e - a); });
		return "bezier-piece";
	}
	case 10:
	{
		// split and put together again: the pieces get half of the domain each
		if (!h.inner(0, t, m)) return "";
		LN_NurbsCurve l, q;
		h.ctx.check(NurbsCurve::SplitAt(c, t, l, q), "history-accepts", "after " + h.log + ": split refused");
		h.ctx.check(NurbsCurve::Merge(l, q, r), "history-accepts", "after " + h.log + ": merge of the two halves refused");
		ld a = lo(c), b = hi(c), ra = lo(r), rb = hi(r), mid = 0.5L * (ra + rb), tt = t;
		h.compose(0, [=](ld x) { return x <= mid ? a + (x - ra) / (mid - ra) * (tt - a) : tt + (x - mid) / (rb - mid) * (b - tt); });
		h.o.c = r;
		return "split-merge";
	}
	case 11:
	{
		// a Bezier curve may be elevated, turned round and reduced again
		if (c.ControlPoints.size() != (size_t)c.Degree + 1 || c.Degree > 6 || weightRatio(c) > 50) return "";
		LN_NurbsCurve e, q;
		NurbsCurve::ElevateDegree(c, 1, e);
		NurbsCurve::Reverse(e, q);
		h.ctx.check(NurbsCurve::ReduceDegree(q, r), "history-accepts", "after " + h.log + ": reduction of an elevated and reversed curve refused");
		h.ctx.check(r.Degree == c.Degree, "history-valid", "degree after reduction");
		ld s = (ld)h.o.a(0) + h.o.b(0);
		h.compose(0, [s](ld x) { return s - x; });
		h.o.c = r;
		h.scale *= 30;
		return "elevate-reverse-reduce";
	}
	default:
	{
		// unclamped and clamped again
		LN_NurbsCurve u;
		if (c.Degree > 4 || (int)innerKnots(c.Degree, c.KnotVector).size() < c.Degree - 1) return "";
		for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c) && q.second > 1) return "";
		auto gr = groups(c.KnotVector);
		for (size_t i = 0; i + 1 < gr.size(); i++) if (gr[i + 1].first - gr[i].first < 0.12 * (hi(c) - lo(c))) return "";
		NurbsCurve::ToUnclampCurve(c, u);
		ld mag = 0;
		for (auto& q : u.ControlPoints) { mag = std::max(mag, (ld)fabs(q.GetW())); if (q.GetW() < 0.02) return ""; }
		mag = std::max(mag, maxAbs(u));
		if (mag > 1e3L * (1 + h.scale)) return "";
		NurbsCurve::ToClampCurve(u, r);
		h.ctx.check(NurbsCurve::IsClamp(r), "history-valid", "after " + h.log + ": not clamped after ToClampCurve");
		h.o.c = r;
		h.scale = std::max(h.scale, mag) * 10;
		return "unclamp-clamp";
	}
	}
}
static std::string stepSurface(Hist& h)
{
	Rng& g = h.ctx.rng;
	LN_NurbsSurface s = h.o.s, r = dirtySurface();
	bool alias = g.chance(0.2);
	if (alias) r = s;
	const LN_NurbsSurface& in = alias ? r : s;
	int d = g.irange(0, 1), p = h.o.deg_(d);
	bool u = d == 0;
	double t; int m;
	switch (g.irange(0, 8))
	{
	case 0:
		if (!h.inner(d, t, m) || m >= p) return "";
		NurbsSurface::InsertKnot(in, t, g.irange(1, p - m), u, r);
		h.o.s = r;
		return u ? "insert-u" : "insert-v";
	case 1:
	{
		if (!h.inner(d, t, m) || m >= p) return "";
		std::vector<double> x(g.irange(1, p - m), t);
		double t2; int m2;
		if (h.inner(d, t2, m2) && m2 < p && fabs(t - t2) > 1e-2 * (1 + fabs(t))) x.push_back(t2);
		std::sort(x.begin(), x.end());
		NurbsSurface::RefineKnotVector(in, x, u, r);
		h.o.s = r;
		return u ? "refine-u" : "refine-v";
	}
	case 2:
		if (p >= 5) return "";
		NurbsSurface::ElevateDegree(in, 1, u, r);
		h.o.s = r;
		return u ? "elevate-u" : "elevate-v";
	case 3:
		NurbsSurface::Swap(in, r);
		h.pre([](const ld* a, ld* b) { b[0] = a[1]; b[1] = a[0]; });
		h.o.s = r;
		return "swap";
	case 4:
	{
		int k = g.irange(0, 2);
		ld su = (ld)h.o.a(0) + h.o.b(0), sv = (ld)h.o.a(1) + h.o.b(1);
		NurbsSurface::Reverse(in, k == 0 ? SurfaceDirection::UDirection : k == 1 ? SurfaceDirection::VDirection : SurfaceDirection::All, r);
		h.pre([=](const ld* a, ld* b) { b[0] = k != 1 ? su - a[0] : a[0]; b[1] = k != 0 ? sv - a[1] : a[1]; });
		h.o.s = r;
		return k == 0 ? "reverse-u" : k == 1 ? "reverse-v" : "reverse-uv";
	}
	case 5:
	{
		double a, b, c, e;
		target(g, a, b);
		target(g, c, e);
		NurbsSurface::Reparametrize(in, a, b, c, e, r);
		ld o[4] = { h.o.a(0), h.o.b(0), h.o.a(1), h.o.b(1) };
		h.o.s = r;
		ld n[4] = { h.o.a(0), h.o.b(0), h.o.a(1), h.o.b(1) };
		ld o0 = o[0], o1 = o[1], o2 = o[2], o3 = o[3], n0 = n[0], n1 = n[1], n2 = n[2], n3 = n[3];
		h.pre([=](const ld* x, ld* y) { y[0] = o0 + (x[0] - n0) / (n1 - n0) * (o1 - o0); y[1] = o2 + (x[1] - n2) / (n3 - n2) * (o3 - o2); });
		return "reparametrize";
	}
	case 6:
	{
		auto b = NurbsSurface::DecomposeToBeziers(s);
		auto gu = groups(s.KnotVectorU), gv = groups(s.KnotVectorV);
		h.ctx.check(b.size() == (gu.size() - 1) * (gv.size() - 1), "history-accepts", "after " + h.log + ": number of Bezier patches");
		size_t i = g.irange(0, (int)gu.size() - 2), j = g.irange(0, (int)gv.size() - 2);
		h.o.s = b[i * (gv.size() - 1) + j];
		ld u0 = gu[i].first, u1 = gu[i + 1].first, v0 = gv[j].first, v1 = gv[j + 1].first, a = h.o.a(0), e = h.o.b(0), c = h.o.a(1), f = h.o.b(1);
		h.pre([=](const ld* x, ld* y) { y[0] = u0 + (x[0] - a) / (e - a) * (u1 - u0); y[1] = v0 + (x[1] - c) / (f - c) * (v1 - v0); });
		return "bezier-patch";
	}
	case 7:
	{
		if (!h.inner(d, t, m) || m >= p) return "";
		// knots put in with the directions swapped come out with them swapped back
		LN_NurbsSurface a, b, c;
		for (double k : h.o.kn(d)) if (k != t && fabs(k - t) < 0.04 * (h.o.b(d) - h.o.a(d))) return "";
		NurbsSurface::Swap(s, a);
		NurbsSurface::InsertKnot(a, t, 1, !u, b);
		NurbsSurface::Swap(b, c);
		NurbsSurface::RemoveKnot(c, t, 1, u, r);
		h.o.s = r;
		h.ctx.check(sameKnots(h.o.kn(d), u ? s.KnotVectorU : s.KnotVectorV), "history-accepts", "after " + h.log + ": a knot inserted into the swapped surface was not removed");
		h.scale *= 30;
		return "swap-insert-swap-remove";
	}
	default:
	{
		if (h.steps < 2) return "";
		double x = g.chance(0.3) ? (g.chance(0.5) ? h.o.a(1 - d) : h.o.b(1 - d)) : g.uni(h.o.a(1 - d), h.o.b(1 - d));
		LN_NurbsCurve c = NurbsSurface::GetIsoCurve(s, x, u);
		h.o.kind = 1;
		h.o.c = c;
		ld fx = x;
		h.pre([=](const ld* a, ld* b) { b[d] = a[0]; b[1 - d] = fx; });
		return u ? "isocurve-u" : "isocurve-v";
	}
	}
}
static std::string stepVolume(Hist& h)
{
	Rng& g = h.ctx.rng;
	LN_NurbsVolume s = h.o.v, r = dirtyVolume();
	bool alias = g.chance(0.2);
	if (alias) r = s;
	const LN_NurbsVolume& in = alias ? r : s;
	int d = g.irange(0, 2), p = h.o.deg_(d);
	double t; int m;
	switch (g.irange(0, 7))
	{
	case 0:
		if (!h.inner(d, t, m) || m >= p) return "";
		NurbsVolume::InsertKnot(in, t, g.irange(1, p - m), VD[d], r);
		h.o.v = r;
		return strf("insert-%d", d);
	case 1:
	{
		if (!h.inner(d, t, m) || m >= p) return "";
		std::vector<double> x(g.irange(1, p - m), t);
		NurbsVolume::RefineKnotVector(in, x, VD[d], r);
		h.o.v = r;
		return strf("refine-%d", d);
	}
	case 2:
		if (p >= 4) return "";
		NurbsVolume::ElevateDegree(in, 1, VD[d], r);
		h.o.v = r;
		return strf("elevate-%d", d);
	case 3:
	{
		if (!h.inner(d, t, m)) return "";
		LN_NurbsVolume a, b;
		h.ctx.check(NurbsVolume::SplitAt(s, t, VD[d], a, b), "history-accepts", "after " + h.log + ": split refused");
		h.o.v = g.chance(0.5) ? a : b;
		return strf("split-%d", d);
	}
	case 4:
	{
		ld q = (ld)h.o.a(d) + h.o.b(d);
		NurbsVolume::Reverse(in, VD[d], r);
		h.compose(d, [q](ld x) { return q - x; });
		h.o.v = r;
		return strf("reverse-%d", d);
	}
	case 5:
	{
		int e = g.irange(0, 2);
		NurbsVolume::Swap(in, VD[d], VD[e], r);
		h.pre([=](const ld* a, ld* b) { for (int i = 0; i < 3; i++) b[i] = a[i]; std::swap(b[d], b[e]); });
		h.o.v = r;
		return strf("swap-%d%d", d, e);
	}
	case 6:
	{
		if (h.steps < 2) return "";
		if (!h.inner(d, t, m)) return "";
		if (g.chance(0.3)) t = g.chance(0.5) ? h.o.a(d) : h.o.b(d);
		LN_NurbsSurface f;
		h.ctx.check(NurbsVolume::Extract(s, t, VD[d], f), "history-accepts", "after " + h.log + ": extraction refused");
		h.o.kind = 2;
		h.o.s = f;
		ld ft = t;
		int e = d == 0 ? 1 : 0, k = d == 2 ? 1 : 2;
		h.pre([=](const ld* a, ld* b) { b[d] = ft; b[e] = a[0]; b[k] = a[1]; });
		return strf("extract-%d", d);
	}
	default:
	{
		if (h.steps < 2) return "";
		ld q[3];
		for (int e = 0; e < 3; e++)
		{
			q[e] = g.chance(0.3) ? (g.chance(0.5) ? h.o.a(e) : h.o.b(e)) : g.uni(h.o.a(e), h.o.b(e));
			if (e != d && fabsl(q[e] + 1) < 1e-3L) return "";   // -1 marks the free direction
		}
		double w[3] = { (double)q[0], (double)q[1], (double)q[2] };
		for (int e = 0; e < 3; e++) q[e] = w[e];
		w[d] = -1;
		h.o.c = NurbsVolume::GetIsoCurve(s, UVW(w[0], w[1], w[2]));
		h.o.kind = 1;
		ld q0 = q[0], q1 = q[1], q2 = q[2];
		h.pre([=](const ld* a, ld* b) { b[0] = q0; b[1] = q1; b[2] = q2; b[d] = a[0]; });
		return strf("isocurve-%d", d);
	}
	}
}
static void history(Ctx& ctx, const Obj& start, int length)
{
	Hist h(ctx, start);
	if (!h.usable()) return;
	int done = 0;
	for (int tries = 0; tries < 4 * length && done < length; tries++)
	{
		std::string op = h.o.kind == 1 ? stepCurve(h) : h.o.kind == 2 ? stepSurface(h) : stepVolume(h);
		if (op.empty()) continue;
		h.judge(op);
		ctx.count("steps-judged");
		done++;
		if (!h.usable()) break;
	}
	ctx.bucket("length", done);
	ctx.bucket("ends-as", h.o.kind);
	ctx.cls(h.log);
}
}
SCENARIO(curve_history, 5)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	o.minGap = 0.05;
	o.simpleDomain = true;
	Obj x;
	x.kind = 1;
	x.c = genCurve(ctx, o);
	history(ctx, x, ctx.rng.irange(3, 12));
}
SCENARIO(surface_history, 4)
{
	SurfOpt o;
	o.maxP = 4;
	o.maxWeightMode = 1;
	o.minGap = 0.08;
	o.simpleDomain = true;
	Obj x;
	x.kind = 2;
	x.s = genSurface(ctx, o);
	history(ctx, x, ctx.rng.irange(3, 10));
}
SCENARIO(volume_history, 3)
{
	Obj x;
	x.kind = 3;
	x.v = genVolume(ctx, 3, 2, 1);
	history(ctx, x, ctx.rng.irange(3, 10));
}
// histories of constructed objects: arcs, cylinders and revolved surfaces
SCENARIO(constructed_history, 2)
{
	Rng& g = ctx.rng;
	Obj x;
	x.kind = g.irange(1, 2);
	XYZ X(1, 0, 0), Y(0, 1, 0);
	double s = g.uni(0, 3), e = s + g.uni(0.3, 6.2), r = g.uni(1, 9);
	if (x.kind == 1)
	{
		if (!NurbsCurve::CreateArc(XYZ(1, 2, 3), X, Y, s, e, r, g.chance(0.5) ? r : g.uni(1, 9), x.c)) return;
	}
	else if (g.chance(0.5))
	{
		if (!NurbsSurface::CreateCylindricalSurface(XYZ(1, 2, 3), X, Y, s, e, r, g.uni(1, 9), x.s)) return;
	}
	else
	{
		CurveOpt o;
		o.maxP = 3;
		o.maxWeightMode = 1;
		o.minGap = 0.1;
		o.simpleDomain = true;
		LN_NurbsCurve c = genCurve(ctx, o);
		if (!NurbsSurface::CreateRevolvedSurface(XYZ(0.5, 0.25, 0), XYZ(0, 0.6, 0.8), e - s, c, x.s)) return;
	}
	ctx.bucket("start", x.kind == 1 ? "arc" : "surface");
	history(ctx, x, g.irange(3, 10));
}
#include "main.inc"
