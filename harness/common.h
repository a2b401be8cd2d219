// Shared monitoring infrastructure: deterministic workload generators, long-double reference
// oracles that are independent of the library's algorithms, and the event/verdict recorder.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "LNEnums.h"
#include "LNObject.h"
#include "Constants.h"
#include "UV.h"
#include "UVW.h"
#include "XYZ.h"
#include "XYZW.h"
#include "Matrix4d.h"
#include "MathUtils.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "ValidationUtils.h"
#include "BezierCurve.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "Interpolation.h"
#include "Intersection.h"
#include "Projection.h"
#include "Integrator.h"

namespace H
{
using namespace LNLib;
typedef long double ld;

// ------------------------------------------------------------------ rng
struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) { for (int i = 0; i < 4; i++) next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * uni(); }
	int irange(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
	bool chance(double p) { return uni() < p; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
	double sgn() { return (next() & 1) ? 1.0 : -1.0; }
	double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
};

// ------------------------------------------------------------------ recorder
struct CaseAbort {};
struct Finding { std::string scenario, monitor, message, dump; long index; };

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}

#ifdef TIGHT
// tools/tight.py: how much of each tolerance is used, and how small the tolerances are against the values
struct Tight { ld worst = 0; long n = 0, sharp = 0, fine = 0; };
struct Tights { std::map<std::string, Tight> m; ~Tights() { for (auto& x : m) fprintf(stdout, "TIGHT %-34s n %9ld worst %.2Le tol<1e-3 %.3f tol<1e-6 %.3f\n", x.first.c_str(), x.second.n, x.second.worst, (double)x.second.sharp / x.second.n, (double)x.second.fine / x.second.n); } };
inline Tights& tights() { static Tights t; return t; }
inline void TIGHTNESS(const char* monitor, ld d, ld tol, ld size) { if (size == 0) return; Tight& t = tights().m[monitor]; t.n++; if (tol > 0 && d / tol > t.worst) t.worst = d / tol; t.sharp += tol < 1e-3L * size; t.fine += tol < 1e-6L * size; }
#else
#define TIGHTNESS(monitor, d, tol, size) (void)0
#endif
struct Ctx
{
	Rng rng;
	long index;
	std::string scenario;
	std::string dumpText;
	std::string classKey;          // structural signature of the generated input
	bool nontrivial = false;
	bool verbose = false;
	// aggregated (shared by all cases of the worker)
	std::map<std::string, long>* obs;
	std::map<std::string, std::map<std::string, long>>* buckets;
	std::vector<Finding>* findings;

	Ctx(uint64_t seed, long idx) : rng(seed), index(idx) {}

	void count(const std::string& monitor, long n = 1) { (*obs)[monitor] += n; }
	void bucket(const std::string& dim, const std::string& v) { (*buckets)[dim][v]++; classKey += dim + "=" + v + ";"; }
	void bucket(const std::string& dim, int v) { bucket(dim, std::to_string(v)); }
	void cls(const std::string& s) { classKey += s + ";"; }
	void note(const std::string& s) { dumpText += s + "\n"; }

	[[noreturn]] void fail(const std::string& monitor, const std::string& msg)
	{
		findings->push_back({ scenario, monitor, msg, dumpText, index });
		throw CaseAbort();
	}
	// One monitored observation. cond==true means the observation satisfied the property.
	void check(bool cond, const char* monitor, const std::string& msg)
	{
		(*obs)[monitor]++;
		nontrivial = true;
		if (!cond) fail(monitor, msg);
	}
	// |got-want| <= tol, NaN fails
	void near(ld got, ld want, ld tol, const char* monitor, const char* what)
	{
		(*obs)[monitor]++;
		nontrivial = true;
		ld d = fabsl(got - want);
		TIGHTNESS(monitor, d, tol, fabsl(want));
		if (!(d <= tol))
			fail(monitor, strf("%s: got %.17Lg want %.17Lg |diff| %.3Lg tol %.3Lg", what, got, want, d, tol));
	}
	void dump(const char* name, const LN_NurbsCurve& c);
	void dump(const char* name, const LN_NurbsSurface& s);
	void dump(const char* name, const LN_NurbsVolume& s);
	void dump(const char* name, const std::vector<XYZ>& s);
	void dump(const char* name, const std::vector<double>& s);
	void dump(const char* name, double v) { note(strf("%s = %.17g", name, v)); }
	void dump(const char* name, const XYZ& p) { note(strf("%s = (%.17g, %.17g, %.17g)", name, p.GetX(), p.GetY(), p.GetZ())); }
};

inline void Ctx::dump(const char* name, const std::vector<double>& v)
{
	std::string s = std::string(name) + " = {";
	for (double d : v) s += strf("%.17g, ", d);
	note(s + "}");
}
inline void Ctx::dump(const char* name, const std::vector<XYZ>& v)
{
	std::string s = std::string(name) + " = {";
	for (auto& d : v) s += strf("{%.17g,%.17g,%.17g}, ", d.GetX(), d.GetY(), d.GetZ());
	note(s + "}");
}
inline std::string cpStr(const std::vector<XYZW>& v)
{
	std::string s = "{";
	for (auto& d : v) s += strf("{%.17g,%.17g,%.17g,%.17g}, ", d.GetWX(), d.GetWY(), d.GetWZ(), d.GetW());
	return s + "}";
}
inline void Ctx::dump(const char* name, const LN_NurbsCurve& c)
{
	note(strf("%s: degree %d, %zu control points (wx,wy,wz,w)", name, c.Degree, c.ControlPoints.size()));
	dump("  knots", c.KnotVector);
	note("  cps " + cpStr(c.ControlPoints));
}
inline void Ctx::dump(const char* name, const LN_NurbsSurface& c)
{
	note(strf("%s: degreeU %d degreeV %d, %zu rows", name, c.DegreeU, c.DegreeV, c.ControlPoints.size()));
	dump("  knotsU", c.KnotVectorU);
	dump("  knotsV", c.KnotVectorV);
	for (auto& r : c.ControlPoints) note("  row " + cpStr(r));
}
inline void Ctx::dump(const char* name, const LN_NurbsVolume& c)
{
	note(strf("%s: degrees %d %d %d, %zu", name, c.DegreeU, c.DegreeV, c.DegreeW, c.ControlPoints.size()));
	dump("  knotsU", c.KnotVectorU);
	dump("  knotsV", c.KnotVectorV);
	dump("  knotsW", c.KnotVectorW);
	for (auto& r : c.ControlPoints)
		for (auto& q : r) note("  row " + cpStr(q));
}

// ------------------------------------------------------------------ scenarios
struct Scenario { const char* name; int weight; void (*fn)(Ctx&); };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char* n, int w, void (*f)(Ctx&)) { scenarios().push_back({ n, w, f }); } };
inline std::vector<Scenario>& probes() { static std::vector<Scenario> v; return v; }
struct RegP { RegP(const char* n, void (*f)(Ctx&)) { probes().push_back({ n, 1, f }); } };
#define PROBE(name) \
	static void probe_##name(H::Ctx& ctx); \
	static H::RegP regp_##name(#name, probe_##name); \
	static void probe_##name(H::Ctx& ctx)
#define SCENARIO(name, weight) \
	static void scen_##name(H::Ctx& ctx); \
	static H::Reg reg_##name(#name, weight, scen_##name); \
	static void scen_##name(H::Ctx& ctx)

// ------------------------------------------------------------------ small vector algebra (long double)
struct V3
{
	ld x = 0, y = 0, z = 0;
	V3() {}
	V3(ld a, ld b, ld c) : x(a), y(b), z(c) {}
	V3(const XYZ& p) : x(p.GetX()), y(p.GetY()), z(p.GetZ()) {}
	V3 operator+(const V3& o) const { return { x + o.x, y + o.y, z + o.z }; }
	V3 operator-(const V3& o) const { return { x - o.x, y - o.y, z - o.z }; }
	V3 operator*(ld k) const { return { x * k, y * k, z * k }; }
	V3 operator/(ld k) const { return { x / k, y / k, z / k }; }
	V3& operator+=(const V3& o) { x += o.x; y += o.y; z += o.z; return *this; }
	ld dot(const V3& o) const { return x * o.x + y * o.y + z * o.z; }
	V3 cross(const V3& o) const { return { y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x }; }
	ld len() const { return sqrtl(dot(*this)); }
	V3 unit() const { ld l = len(); return l > 0 ? *this / l : *this; }
	XYZ xyz() const { return XYZ((double)x, (double)y, (double)z); }
};
inline V3 operator*(ld k, const V3& v) { return v * k; }
struct V4
{
	ld x = 0, y = 0, z = 0, w = 0;
	V4() {}
	V4(ld a, ld b, ld c, ld d) : x(a), y(b), z(c), w(d) {}
	V4(const XYZW& p) : x(p.GetWX()), y(p.GetWY()), z(p.GetWZ()), w(p.GetW()) {}
	V4 operator+(const V4& o) const { return { x + o.x, y + o.y, z + o.z, w + o.w }; }
	V4 operator-(const V4& o) const { return { x - o.x, y - o.y, z - o.z, w - o.w }; }
	V4 operator*(ld k) const { return { x * k, y * k, z * k, w * k }; }
	V4& operator+=(const V4& o) { x += o.x; y += o.y; z += o.z; w += o.w; return *this; }
	V3 v3() const { return { x, y, z }; }
	V3 proj() const { return { x / w, y / w, z / w }; }
};
inline ld dist(const V3& a, const V3& b) { return (a - b).len(); }
inline bool finite(const XYZ& p) { return std::isfinite(p.GetX()) && std::isfinite(p.GetY()) && std::isfinite(p.GetZ()); }
inline std::string str(const V3& v) { return strf("(%.12Lg,%.12Lg,%.12Lg)", v.x, v.y, v.z); }

// ------------------------------------------------------------------ reference B-spline machinery
typedef std::vector<double> Knots;

// Span index by definition: last i in [p,n] with U[i] <= t < U[i+1]; domain end belongs to the last non-empty span.
inline int refSpan(int p, const Knots& U, ld t)
{
	int n = (int)U.size() - p - 2;
	int best = -1;
	for (int i = p; i <= n; i++)
		if (U[i] < U[i + 1] && U[i] <= t) best = i;
	if (best < 0)
		for (int i = p; i <= n; i++)
			if (U[i] < U[i + 1]) { best = i; break; }
	return best;
}
// Span whose closure contains t but to the left of t (for left-hand limits); equals refSpan off the knots.
inline int refSpanLeft(int p, const Knots& U, ld t)
{
	int n = (int)U.size() - p - 2;
	for (int i = p; i <= n; i++)
		if (U[i] < U[i + 1] && t > U[i] && t <= U[i + 1]) return i;
	return refSpan(p, U, t);
}
// k-th derivative of the polynomial piece (on span 'span') of N_{i,p}, by the recursive definition.
inline ld refN(int i, int p, const Knots& U, ld t, int span, int k = 0)
{
	if (i > span || span > i + p) return 0;
	if (k > p) return 0;
	if (p == 0) return i == span ? 1 : 0;
	ld a = (ld)U[i + p] - U[i], b = (ld)U[i + p + 1] - U[i + 1];
	if (k == 0)
	{
		ld r = 0;
		if (a > 0) r += (t - U[i]) / a * refN(i, p - 1, U, t, span);
		if (b > 0) r += (U[i + p + 1] - t) / b * refN(i + 1, p - 1, U, t, span);
		return r;
	}
	ld r = 0;
	if (a > 0) r += p / a * refN(i, p - 1, U, t, span, k - 1);
	if (b > 0) r -= p / b * refN(i + 1, p - 1, U, t, span, k - 1);
	return r;
}
inline ld binom(int n, int k) { ld r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }

struct BasisRow { int first; std::vector<ld> v; };
inline BasisRow refRow(int p, const Knots& U, ld t, int span, int k)
{
	BasisRow r;
	r.first = span - p;
	for (int i = 0; i <= p; i++) r.v.push_back(refN(span - p + i, p, U, t, span, k));
	return r;
}
inline V4 refCurveH(const LN_NurbsCurve& c, ld t, int k, int span)
{
	V4 s;
	BasisRow b = refRow(c.Degree, c.KnotVector, t, span, k);
	for (int i = 0; i <= c.Degree; i++) s += V4(c.ControlPoints[b.first + i]) * b.v[i];
	return s;
}
// magnitude bound of the k-th homogeneous derivative: sum |N^(k)| |P| (for tolerances)
inline ld refCurveMag(const LN_NurbsCurve& c, ld t, int k, int span)
{
	ld s = 0;
	BasisRow b = refRow(c.Degree, c.KnotVector, t, span, k);
	for (int i = 0; i <= c.Degree; i++)
	{
		V4 q(c.ControlPoints[b.first + i]);
		s += fabsl(b.v[i]) * sqrtl(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
	}
	return s;
}
inline V3 refPoint(const LN_NurbsCurve& c, ld t)
{
	return refCurveH(c, t, 0, refSpan(c.Degree, c.KnotVector, t)).proj();
}
inline std::vector<V3> refDers(const LN_NurbsCurve& c, ld t, int d, int span)
{
	std::vector<V4> A;
	for (int k = 0; k <= d; k++) A.push_back(refCurveH(c, t, k, span));
	std::vector<V3> C;
	for (int k = 0; k <= d; k++)
	{
		V3 v = A[k].v3();
		for (int i = 1; i <= k; i++) v = v - C[k - i] * (binom(k, i) * A[i].w);
		C.push_back(v / A[0].w);
	}
	return C;
}
inline std::vector<V3> refDers(const LN_NurbsCurve& c, ld t, int d) { return refDers(c, t, d, refSpan(c.Degree, c.KnotVector, t)); }

inline V4 refSurfH(const LN_NurbsSurface& s, ld u, ld v, int k, int l, int su, int sv)
{
	BasisRow bu = refRow(s.DegreeU, s.KnotVectorU, u, su, k), bv = refRow(s.DegreeV, s.KnotVectorV, v, sv, l);
	V4 r;
	for (int i = 0; i <= s.DegreeU; i++)
		for (int j = 0; j <= s.DegreeV; j++)
			r += V4(s.ControlPoints[bu.first + i][bv.first + j]) * (bu.v[i] * bv.v[j]);
	return r;
}
inline V3 refPoint(const LN_NurbsSurface& s, ld u, ld v)
{
	return refSurfH(s, u, v, 0, 0, refSpan(s.DegreeU, s.KnotVectorU, u), refSpan(s.DegreeV, s.KnotVectorV, v)).proj();
}
typedef std::vector<std::vector<V3>> V3Grid;
inline V3Grid refDers(const LN_NurbsSurface& s, ld u, ld v, int d, int su, int sv)
{
	std::vector<std::vector<V4>> A(d + 1, std::vector<V4>(d + 1));
	for (int k = 0; k <= d; k++) for (int l = 0; l <= d; l++) A[k][l] = refSurfH(s, u, v, k, l, su, sv);
	V3Grid S(d + 1, std::vector<V3>(d + 1));
	for (int k = 0; k <= d; k++)
		for (int l = 0; l <= d; l++)
		{
			V3 x = A[k][l].v3();
			for (int i = 0; i <= k; i++)
				for (int j = 0; j <= l; j++)
					if (i || j) x = x - S[k - i][l - j] * (binom(k, i) * binom(l, j) * A[i][j].w);
			S[k][l] = x / A[0][0].w;
		}
	return S;
}
inline V3Grid refDers(const LN_NurbsSurface& s, ld u, ld v, int d)
{
	return refDers(s, u, v, d, refSpan(s.DegreeU, s.KnotVectorU, u), refSpan(s.DegreeV, s.KnotVectorV, v));
}
inline V4 refVolH(const LN_NurbsVolume& s, ld u, ld v, ld w, int k, int l, int m, int su, int sv, int sw)
{
	BasisRow bu = refRow(s.DegreeU, s.KnotVectorU, u, su, k), bv = refRow(s.DegreeV, s.KnotVectorV, v, sv, l), bw = refRow(s.DegreeW, s.KnotVectorW, w, sw, m);
	V4 r;
	for (int i = 0; i <= s.DegreeU; i++)
		for (int j = 0; j <= s.DegreeV; j++)
			for (int q = 0; q <= s.DegreeW; q++)
				r += V4(s.ControlPoints[bu.first + i][bv.first + j][bw.first + q]) * (bu.v[i] * bv.v[j] * bw.v[q]);
	return r;
}
inline V3 refPoint(const LN_NurbsVolume& s, ld u, ld v, ld w)
{
	return refVolH(s, u, v, w, 0, 0, 0, refSpan(s.DegreeU, s.KnotVectorU, u), refSpan(s.DegreeV, s.KnotVectorV, v), refSpan(s.DegreeW, s.KnotVectorW, w)).proj();
}

// ------------------------------------------------------------------ domain helpers
inline double lo(int p, const Knots& U) { return U[p]; }
inline double hi(int p, const Knots& U) { return U[U.size() - 1 - p]; }
inline double lo(const LN_NurbsCurve& c) { return lo(c.Degree, c.KnotVector); }
inline double hi(const LN_NurbsCurve& c) { return hi(c.Degree, c.KnotVector); }
inline double loU(const LN_NurbsSurface& s) { return lo(s.DegreeU, s.KnotVectorU); }
inline double hiU(const LN_NurbsSurface& s) { return hi(s.DegreeU, s.KnotVectorU); }
inline double loV(const LN_NurbsSurface& s) { return lo(s.DegreeV, s.KnotVectorV); }
inline double hiV(const LN_NurbsSurface& s) { return hi(s.DegreeV, s.KnotVectorV); }

inline ld maxAbs(const LN_NurbsCurve& c)
{
	ld m = 0;
	for (auto& q : c.ControlPoints) { V3 v = V4(q).proj(); m = std::max(m, std::max(fabsl(v.x), std::max(fabsl(v.y), fabsl(v.z)))); }
	return m;
}
inline ld maxAbs(const LN_NurbsSurface& c)
{
	ld m = 0;
	for (auto& r : c.ControlPoints) for (auto& q : r) { V3 v = V4(q).proj(); m = std::max(m, std::max(fabsl(v.x), std::max(fabsl(v.y), fabsl(v.z)))); }
	return m;
}
inline ld maxAbs(const LN_NurbsVolume& c)
{
	ld m = 0;
	for (auto& a : c.ControlPoints) for (auto& r : a) for (auto& q : r) { V3 v = V4(q).proj(); m = std::max(m, std::max(fabsl(v.x), std::max(fabsl(v.y), fabsl(v.z)))); }
	return m;
}
// ratio max weight / min weight
inline ld weightRatio(const LN_NurbsCurve& c)
{
	ld a = 1e300L, b = 0;
	for (auto& q : c.ControlPoints) { a = std::min(a, (ld)q.GetW()); b = std::max(b, (ld)q.GetW()); }
	return b / a;
}

// distinct knots with multiplicities (exact grouping; generators never create near-coincident knots)
inline std::vector<std::pair<double, int>> groups(const Knots& U, double tol = 1e-9)
{
	std::vector<std::pair<double, int>> g;
	for (double u : U)
	{
		if (!g.empty() && fabs(g.back().first - u) <= tol * (1 + fabs(u))) g.back().second++;
		else g.push_back({ u, 1 });
	}
	return g;
}

// structural validity of a returned curve
inline std::string invalidCurve(const LN_NurbsCurve& c, double knotSlack = 1e-9)
{
	if (c.Degree < 1) return strf("degree %d", c.Degree);
	if (c.ControlPoints.size() < (size_t)c.Degree + 1) return strf("%zu control points for degree %d", c.ControlPoints.size(), c.Degree);
	if (c.KnotVector.size() != c.ControlPoints.size() + c.Degree + 1)
		return strf("%zu knots, %zu control points, degree %d", c.KnotVector.size(), c.ControlPoints.size(), c.Degree);
	for (size_t i = 0; i < c.KnotVector.size(); i++)
	{
		if (!std::isfinite(c.KnotVector[i])) return strf("knot %zu not finite", i);
		if (i && c.KnotVector[i] < c.KnotVector[i - 1] - knotSlack) return strf("knots decrease at %zu (%.17g -> %.17g)", i, c.KnotVector[i - 1], c.KnotVector[i]);
	}
	for (size_t i = 0; i < c.ControlPoints.size(); i++)
		for (int k = 0; k < 4; k++)
			if (!std::isfinite(c.ControlPoints[i][k])) return strf("control point %zu not finite", i);
	if (!(hi(c) > lo(c))) return "empty domain";
	return "";
}
inline std::string invalidDir(int p, const Knots& U, size_t n, const char* d)
{
	if (p < 1) return strf("%s degree %d", d, p);
	if (n < (size_t)p + 1) return strf("%s: %zu control points for degree %d", d, n, p);
	if (U.size() != n + p + 1) return strf("%s: %zu knots, %zu control points, degree %d", d, U.size(), n, p);
	for (size_t i = 0; i < U.size(); i++)
	{
		if (!std::isfinite(U[i])) return strf("%s knot %zu not finite", d, i);
		if (i && U[i] < U[i - 1] - 1e-9) return strf("%s knots decrease at %zu", d, i);
	}
	if (!(hi(p, U) > lo(p, U))) return strf("%s empty domain", d);
	return "";
}
inline std::string invalidSurface(const LN_NurbsSurface& s)
{
	if (s.ControlPoints.empty()) return "no control points";
	std::string e = invalidDir(s.DegreeU, s.KnotVectorU, s.ControlPoints.size(), "U");
	if (!e.empty()) return e;
	e = invalidDir(s.DegreeV, s.KnotVectorV, s.ControlPoints[0].size(), "V");
	if (!e.empty()) return e;
	for (auto& r : s.ControlPoints)
	{
		if (r.size() != s.ControlPoints[0].size()) return "ragged control net";
		for (auto& q : r) for (int k = 0; k < 4; k++) if (!std::isfinite(q[k])) return "control point not finite";
	}
	return "";
}
inline std::string invalidVolume(const LN_NurbsVolume& s)
{
	if (s.ControlPoints.empty() || s.ControlPoints[0].empty()) return "no control points";
	std::string e = invalidDir(s.DegreeU, s.KnotVectorU, s.ControlPoints.size(), "U");
	if (!e.empty()) return e;
	e = invalidDir(s.DegreeV, s.KnotVectorV, s.ControlPoints[0].size(), "V");
	if (!e.empty()) return e;
	e = invalidDir(s.DegreeW, s.KnotVectorW, s.ControlPoints[0][0].size(), "W");
	if (!e.empty()) return e;
	for (auto& a : s.ControlPoints)
	{
		if (a.size() != s.ControlPoints[0].size()) return "ragged control net";
		for (auto& r : a)
		{
			if (r.size() != s.ControlPoints[0][0].size()) return "ragged control net";
			for (auto& q : r) for (int k = 0; k < 4; k++) if (!std::isfinite(q[k])) return "control point not finite";
		}
	}
	return "";
}

// ------------------------------------------------------------------ generators
struct KnotOpt
{
	int minP = 1, maxP = 7;
	int maxInterior = 6;        // number of distinct interior knots
	int maxMult = 99;           // interior multiplicity limit (also limited by degree)
	double multChance = 0.35;   // chance that an interior knot is repeated
	bool allowUnclamped = false;
	bool unitDomain = false;
	bool simpleDomain = false;  // no large offsets
	double minGap = 0.02;       // minimal relative spacing
	double closeChance = 0;     // chance of a knot that almost, but not quite, coincides with its neighbour
};
inline void genDomain(Rng& r, const KnotOpt& o, double& a, double& b)
{
	if (o.unitDomain || r.chance(0.45)) { a = 0; b = 1; return; }
	switch (r.irange(0, o.simpleDomain ? 3 : 4))
	{
	case 0: a = 0; b = r.uni(0.5, 12); break;
	case 1: a = -r.uni(0.5, 6); b = r.uni(0.5, 6); break;
	case 2: a = r.uni(1, 5); b = a + r.uni(1, 8); break;
	case 3: a = -r.uni(6, 9); b = a + r.uni(1, 4); break;
	default: a = r.uni(20, 60); b = a + r.uni(10, 60); break;
	}
	if (r.chance(0.3)) { a = std::round(a); b = std::round(b); if (b <= a) b = a + 1; }
}
// n+1 control points follow from the result: U.size()-p-1
inline Knots genKnots(Rng& r, int p, const KnotOpt& o, bool* unclamped = nullptr)
{
	double a, b;
	genDomain(r, o, a, b);
	int m = r.chance(0.15) ? 0 : r.irange(0, o.maxInterior);
	// distinct interior positions
	std::vector<double> pos;
	int style = r.irange(0, 2);
	std::vector<double> gaps;
	double tot = 0;
	for (int i = 0; i <= m; i++)
	{
		double g = style == 0 ? 1.0 : style == 1 ? r.uni(0.3, 1.0) : r.logu(o.minGap * 2, 1.0);
		gaps.push_back(g);
		tot += g;
	}
	double acc = 0;
	for (int i = 0; i < m; i++) { acc += gaps[i]; pos.push_back(a + (b - a) * acc / tot); }
	// enforce spacing
	double mg = o.minGap * (b - a) / 4;
	std::vector<double> good;
	double last = a;
	for (double q : pos) if (q - last > mg && b - q > mg) { good.push_back(q); last = q; }
	if (o.closeChance > 0 && r.chance(o.closeChance) && !good.empty())
	{
		int i = r.irange(0, (int)good.size() - 1);
		double q = good[i] + r.logu(2e-5, 2e-3) * (1 + std::max(fabs(a), fabs(b)));
		double nx = i + 1 < (int)good.size() ? good[i + 1] : b;
		if (nx - q > 2 * (q - good[i])) good.insert(good.begin() + i + 1, q);
	}
	Knots U;
	bool uncl = o.allowUnclamped && r.chance(0.25);
	if (unclamped) *unclamped = uncl;
	if (!uncl) for (int i = 0; i <= p; i++) U.push_back(a);
	else
	{
		double g = (b - a) / (good.size() + 1.0), q = a;
		std::vector<double> pre;
		for (int i = 0; i < p; i++) { q -= g * (style == 0 ? 1.0 : r.uni(0.4, 1.3)); pre.push_back(q); }
		std::reverse(pre.begin(), pre.end());
		U = pre;
		U.push_back(a);
	}
	for (double q : good)
	{
		int mult = 1;
		if (r.chance(o.multChance)) mult = r.irange(1, std::max(1, std::min(p, o.maxMult)));
		for (int i = 0; i < mult; i++) U.push_back(q);
	}
	if (!uncl) for (int i = 0; i <= p; i++) U.push_back(b);
	else
	{
		double g = (b - a) / (good.size() + 1.0), q = b;
		U.push_back(b);
		for (int i = 0; i < p; i++) { q += g * (style == 0 ? 1.0 : r.uni(0.4, 1.3)); U.push_back(q); }
	}
	return U;
}
inline double genScale(Rng& r) { return r.chance(0.6) ? 10.0 : r.logu(0.05, 2000); }
inline double genWeight(Rng& r, int mode)
{
	if (mode == 0) return 1.0;
	if (mode == 1) return r.uni(0.4, 2.5);
	return r.logu(0.02, 30);
}
inline XYZ genPoint(Rng& r, double s, int mode = 0)
{
	double x = r.uni(-s, s), y = r.uni(-s, s), z = r.uni(-s, s);
	if (mode == 1) z = 0;
	// now and then a point in a coordinate plane or on a coordinate axis
	if (mode == 0 && r.chance(0.1))
	{
		int k = r.irange(0, 2), l = r.chance(0.25) ? (k + r.irange(1, 2)) % 3 : k;
		if (k == 0 || l == 0) x = 0;
		if (k == 1 || l == 1) y = 0;
		if (k == 2 || l == 2) z = 0;
	}
	return XYZ(x, y, z);
}
// a unit vector perpendicular to a
inline XYZ perpTo(Rng& r, const XYZ& a)
{
	XYZ u = XYZ(a).Normalize(), n;
	for (int k = 0; k < 100 && n.Length() < 0.02; k++) n = u.CrossProduct(genPoint(r, 1));
	return n.Normalize();
}
struct CurveOpt : KnotOpt
{
	int weightMode = -1;   // -1 random, 0 none, 1 mild, 2 extreme
	int maxWeightMode = 2;
	int pointMode = -1;    // 0 generic, 1 planar, 2 walk (regular, no loops of zero speed), 3 closed, 4 with repeated points
	int maxPointMode = 4;
	double scale = -1;
};
inline const char* wmName(int m) { return m == 0 ? "nonrational" : m == 1 ? "mild" : "extreme"; }
inline LN_NurbsCurve genCurve(Ctx& ctx, const CurveOpt& o)
{
	Rng& r = ctx.rng;
	LN_NurbsCurve c;
	c.Degree = r.irange(o.minP, o.maxP);
	bool uncl = false;
	c.KnotVector = genKnots(r, c.Degree, o, &uncl);
	int n = (int)c.KnotVector.size() - c.Degree - 1;
	double s = o.scale > 0 ? o.scale : genScale(r);
	int wm = o.weightMode >= 0 ? o.weightMode : r.irange(0, o.maxWeightMode);
	int pm = o.pointMode >= 0 ? o.pointMode : r.irange(0, o.maxPointMode);
	XYZ walk = genPoint(r, s);
	XYZ off = r.chance(0.2) ? genPoint(r, 5 * s) : XYZ(0, 0, 0);
	XYZ dir = genPoint(r, 1).Normalize();
	double wprev = 1;
	for (int i = 0; i < n; i++)
	{
		XYZ q;
		if (pm == 2)
		{
			walk = walk + dir * (s * r.uni(0.3, 0.6)) + genPoint(r, 0.22 * s);
			q = walk;
		}
		else q = genPoint(r, s, pm == 1 ? 1 : 0);
		q = q + off;
		double w = genWeight(r, wm);
		wprev = w;
		if (pm == 4 && i > 0 && r.chance(0.3)) q = c.ControlPoints[i - 1].ToXYZ(true);
		if (pm == 3 && i == n - 1 && n > 2) { q = c.ControlPoints[0].ToXYZ(true); w = c.ControlPoints[0].GetW(); }
		c.ControlPoints.push_back(XYZW(q, w));
	}
	(void)wprev;
	std::string mults;
	for (auto& g : groups(c.KnotVector)) mults += char('0' + std::min(g.second, 9));
	ctx.bucket("degree", c.Degree);
	ctx.bucket("weights", wmName(wm));
	ctx.bucket("points", pm);
	ctx.bucket("knots", uncl ? "unclamped" : "clamped");
	ctx.cls("mults=" + mults);
	ctx.dump("curve", c);
	return c;
}
struct SurfOpt : CurveOpt
{
	int maxInteriorU = 3, maxInteriorV = 3;
};
inline LN_NurbsSurface genSurface(Ctx& ctx, const SurfOpt& o)
{
	Rng& r = ctx.rng;
	LN_NurbsSurface c;
	c.DegreeU = r.irange(o.minP, o.maxP);
	c.DegreeV = r.irange(o.minP, o.maxP);
	KnotOpt ku = o, kv = o;
	ku.maxInterior = o.maxInteriorU;
	kv.maxInterior = o.maxInteriorV;
	bool uu = false, uv = false;
	c.KnotVectorU = genKnots(r, c.DegreeU, ku, &uu);
	c.KnotVectorV = genKnots(r, c.DegreeV, kv, &uv);
	int n = (int)c.KnotVectorU.size() - c.DegreeU - 1, m = (int)c.KnotVectorV.size() - c.DegreeV - 1;
	double s = o.scale > 0 ? o.scale : genScale(r);
	int wm = o.weightMode >= 0 ? o.weightMode : r.irange(0, o.maxWeightMode);
	int pm = o.pointMode >= 0 ? o.pointMode : r.irange(0, 2);
	// pm 2: regular height field-like net under a random rigid frame
	XYZ ex = genPoint(r, 1).Normalize();
	XYZ ey = perpTo(r, ex);
	XYZ ez = ex.CrossProduct(ey);
	XYZ off = r.chance(0.4) ? genPoint(r, 4 * s) : XYZ(0, 0, 0);
	c.ControlPoints.resize(n);
	for (int i = 0; i < n; i++)
		for (int j = 0; j < m; j++)
		{
			XYZ q;
			if (pm == 2)
			{
				double x = (i + r.uni(-0.25, 0.25)) * s / n * 2, y = (j + r.uni(-0.25, 0.25)) * s / m * 2, z = r.uni(-0.3, 0.3) * s;
				q = x * ex + y * ey + z * ez;
			}
			else q = genPoint(r, s, pm == 1 ? 1 : 0);
			c.ControlPoints[i].push_back(XYZW(q + off, genWeight(r, wm)));
		}
	std::string mu, mv;
	for (auto& g : groups(c.KnotVectorU)) mu += char('0' + std::min(g.second, 9));
	for (auto& g : groups(c.KnotVectorV)) mv += char('0' + std::min(g.second, 9));
	ctx.bucket("degreeU", c.DegreeU);
	ctx.bucket("degreeV", c.DegreeV);
	ctx.bucket("weights", wmName(wm));
	ctx.bucket("points", pm);
	ctx.cls("mults=" + mu + "/" + mv + (uu ? "u" : "") + (uv ? "v" : ""));
	ctx.dump("surface", c);
	return c;
}
inline LN_NurbsVolume genVolume(Ctx& ctx, int maxP = 3, int maxInt = 2, int wmMax = 1, bool regular = false)
{
	Rng& r = ctx.rng;
	LN_NurbsVolume c;
	c.DegreeU = r.irange(1, maxP);
	c.DegreeV = r.irange(1, maxP);
	c.DegreeW = r.irange(1, maxP);
	KnotOpt k;
	k.maxInterior = maxInt;
	k.minGap = 0.1;
	c.KnotVectorU = genKnots(r, c.DegreeU, k);
	c.KnotVectorV = genKnots(r, c.DegreeV, k);
	c.KnotVectorW = genKnots(r, c.DegreeW, k);
	int n = (int)c.KnotVectorU.size() - c.DegreeU - 1, m = (int)c.KnotVectorV.size() - c.DegreeV - 1, l = (int)c.KnotVectorW.size() - c.DegreeW - 1;
	int wm = r.irange(0, wmMax);
	double s = genScale(r);
	c.ControlPoints.resize(n);
	for (int i = 0; i < n; i++)
	{
		c.ControlPoints[i].resize(m);
		for (int j = 0; j < m; j++)
			for (int q = 0; q < l; q++)
			{
				XYZ pt = regular ? XYZ((i + r.uni(-.2, .2)) * s / n, (j + r.uni(-.2, .2)) * s / m, (q + r.uni(-.2, .2)) * s / l) : genPoint(r, s);
				c.ControlPoints[i][j].push_back(XYZW(pt, genWeight(r, wm)));
			}
	}
	ctx.bucket("degrees", strf("%d%d%d", c.DegreeU, c.DegreeV, c.DegreeW));
	ctx.bucket("weights", wmName(wm));
	ctx.cls(strf("size=%dx%dx%d", n, m, l));
	ctx.dump("volume", c);
	return c;
}

// A parameter in the domain: endpoint, knot, near knot, or generic.
enum { P_ANY = 0, P_INNER = 1, P_SMOOTH = 2 };
inline double genParam(Ctx& ctx, int p, const Knots& U, int mode = P_ANY)
{
	Rng& r = ctx.rng;
	double a = lo(p, U), b = hi(p, U);
	auto g = groups(U);
	std::vector<double> inner;
	for (auto& q : g) if (q.first > a + 1e-9 && q.first < b - 1e-9) inner.push_back(q.first);
	double x = r.uni();
	if (mode == P_ANY)
	{
		if (x < 0.08) { ctx.bucket("param", "start"); return a; }
		if (x < 0.16) { ctx.bucket("param", "end"); return b; }
		if (x < 0.36 && !inner.empty()) { ctx.bucket("param", "knot"); return r.pick(inner); }
		if (x < 0.44 && !inner.empty()) { ctx.bucket("param", "nearknot"); return std::min(b, std::max(a, r.pick(inner) + r.sgn() * r.logu(1e-10, 1e-4) * (b - a))); }
		if (x < 0.48) { ctx.bucket("param", "nearend"); double e = r.logu(1e-10, 1e-4) * (b - a); return r.chance(0.5) ? a + e : b - e; }
	}
	ctx.bucket("param", "generic");
	for (int it = 0; it < 60; it++)
	{
		double t = r.uni(a, b);
		bool ok = true;
		double sep = 2e-3 * (b - a);
		if (mode == P_SMOOTH || mode == P_INNER)
			for (auto& q : g) if (fabs(q.first - t) < sep) ok = false;
		if (t - a < sep || b - t < sep) ok = false;
		if (ok) return t;
	}
	return 0.5 * (a + b) + 0.0123 * (b - a);
}
inline double genParam(Ctx& ctx, const LN_NurbsCurve& c, int mode = P_ANY) { return genParam(ctx, c.Degree, c.KnotVector, mode); }

// sample parameters: ends, all distinct knots, and interior points of every span
inline std::vector<double> sampleParams(int p, const Knots& U, int perSpan = 3)
{
	std::vector<double> v;
	double a = lo(p, U), b = hi(p, U);
	auto g = groups(U);
	std::vector<double> k;
	for (auto& q : g) if (q.first >= a - 1e-12 && q.first <= b + 1e-12) k.push_back(q.first);
	for (size_t i = 0; i < k.size(); i++)
	{
		v.push_back(k[i]);
		if (i + 1 < k.size())
			for (int j = 1; j <= perSpan; j++) v.push_back(k[i] + (k[i + 1] - k[i]) * j / (perSpan + 1.0));
	}
	return v;
}
// multiplicity of t in U (exact within 1e-9)
inline int multOf(const Knots& U, double t) { int m = 0; for (double u : U) if (fabs(u - t) <= 1e-9 * (1 + fabs(t))) m++; return m; }

// ------------------------------------------------------------------ comparisons
inline ld pointTol(const LN_NurbsCurve& c) { return 1e-10L * weightRatio(c) * (1e-3L + maxAbs(c)); }
// compare two curves pointwise on [a,b] with parameter map t2 = f(t1); reference evaluation on both sides
inline void sameCurve(Ctx& ctx, const LN_NurbsCurve& c1, const LN_NurbsCurve& c2, std::function<ld(ld)> f, const std::vector<double>& ts, ld tol, const char* monitor)
{
	for (double t : ts)
	{
		ld t2 = f ? f(t) : (ld)t;
		t2 = std::min((ld)hi(c2), std::max((ld)lo(c2), t2));
		V3 a = refPoint(c1, t), b = refPoint(c2, t2);
		ld d = dist(a, b);
		ctx.count(monitor);
		ctx.nontrivial = true;
		if (!(d <= tol))
			ctx.fail(monitor, strf("at t=%.12g: original %s result(at %.12Lg) %s, distance %.3Lg > %.3Lg", t, str(a).c_str(), t2, str(b).c_str(), d, tol));
	}
}
inline void sameSurface(Ctx& ctx, const LN_NurbsSurface& s1, const LN_NurbsSurface& s2, std::function<void(ld, ld, ld&, ld&)> f, const std::vector<double>& us, const std::vector<double>& vs, ld tol, const char* monitor)
{
	for (double u : us)
		for (double v : vs)
		{
			ld a = u, b = v;
			if (f) f(u, v, a, b);
			a = std::min((ld)hiU(s2), std::max((ld)loU(s2), a));
			b = std::min((ld)hiV(s2), std::max((ld)loV(s2), b));
			V3 x = refPoint(s1, u, v), y = refPoint(s2, a, b);
			ld d = dist(x, y);
			ctx.count(monitor);
			ctx.nontrivial = true;
			if (!(d <= tol))
				ctx.fail(monitor, strf("at (%.12g,%.12g): original %s result %s, distance %.3Lg > %.3Lg", u, v, str(x).c_str(), str(y).c_str(), d, tol));
		}
}
inline void validCurve(Ctx& ctx, const LN_NurbsCurve& c, const char* monitor)
{
	std::string e = invalidCurve(c);
	ctx.check(e.empty(), monitor, "result is not a valid curve: " + e);
}
inline void validSurface(Ctx& ctx, const LN_NurbsSurface& c, const char* monitor)
{
	std::string e = invalidSurface(c);
	ctx.check(e.empty(), monitor, "result is not a valid surface: " + e);
}
inline void nearPt(Ctx& ctx, const V3& got, const V3& want, ld tol, const char* monitor, const std::string& what)
{
	ctx.count(monitor);
	ctx.nontrivial = true;
	ld d = dist(got, want);
	TIGHTNESS(monitor, d, tol, want.len());
	if (!(d <= tol)) ctx.fail(monitor, what + strf(": got %s want %s distance %.3Lg > %.3Lg", str(got).c_str(), str(want).c_str(), d, tol));
}
inline bool sameKnots(const Knots& a, const Knots& b, double tol = 1e-9)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= tol * (1 + fabs(a[i])))) return false;
	return true;
}
inline bool identical(const LN_NurbsCurve& a, const LN_NurbsCurve& b)
{
	if (a.Degree != b.Degree || a.KnotVector != b.KnotVector || a.ControlPoints.size() != b.ControlPoints.size()) return false;
	for (size_t i = 0; i < a.ControlPoints.size(); i++) for (int k = 0; k < 4; k++) if (a.ControlPoints[i][k] != b.ControlPoints[i][k]) return false;
	return true;
}
// high accuracy length by composite Gauss-Legendre (8 point) with n panels per span
inline ld refSpeed(const LN_NurbsCurve& c, ld t, int span) { return refDers(c, t, 1, span)[1].len(); }
static const ld GL8x[4] = { 0.1834346424956498049394761L, 0.5255324099163289858177390L, 0.7966664774136267395915539L, 0.9602898564975362316835609L };
static const ld GL8w[4] = { 0.3626837833783619829651504L, 0.3137066458778872873379622L, 0.2223810344533744705443560L, 0.1012285362903762591525314L };
inline ld gl8(const std::function<ld(ld)>& f, ld a, ld b)
{
	ld s = 0, h = (b - a) / 2, m = (a + b) / 2;
	for (int i = 0; i < 4; i++) s += GL8w[i] * (f(m - h * GL8x[i]) + f(m + h * GL8x[i]));
	return s * h;
}
inline ld adaptGL(const std::function<ld(ld)>& f, ld a, ld b, ld tol, int depth = 0)
{
	ld m = (a + b) / 2, w = gl8(f, a, b), l = gl8(f, a, m), r = gl8(f, m, b);
	if (fabsl(w - l - r) <= tol || depth > 24) return l + r;
	return adaptGL(f, a, m, tol / 2, depth + 1) + adaptGL(f, m, b, tol / 2, depth + 1);
}
inline ld refLength(const LN_NurbsCurve& c, ld a, ld b, ld tol)
{
	ld s = 0;
	int p = c.Degree;
	const Knots& U = c.KnotVector;
	for (int i = p; i < (int)U.size() - p - 1; i++)
	{
		if (!(U[i] < U[i + 1])) continue;
		ld x = std::max((ld)U[i], a), y = std::min((ld)U[i + 1], b);
		if (y <= x) continue;
		s += adaptGL([&](ld t) { return refSpeed(c, t, i); }, x, y, tol);
	}
	return s;
}
} // namespace H
