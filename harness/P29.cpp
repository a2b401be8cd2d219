// P29: knot vector and control point utilities
#include "surf.hpp"
#include "KnotVectorUtils.h"
#include "ControlPointsUtils.h"
using namespace H;

static Knots knots(Ctx& ctx, int& p, bool uncl = true)
{
	KnotOpt o;
	o.allowUnclamped = uncl;
	o.minGap = 0.04;
	o.closeChance = 0.15;
	p = ctx.rng.irange(1, 7);
	Knots U = genKnots(ctx.rng, p, o);
	ctx.bucket("degree", p);
	std::string m;
	for (auto& g : groups(U)) m += char('0' + std::min(9, g.second));
	ctx.cls(m);
	ctx.dump("knots", U);
	ctx.nontrivial = true;
	return U;
}
SCENARIO(multiplicity, 3)
{
	Rng& g = ctx.rng;
	int p;
	Knots U = knots(ctx, p), U0 = U;
	auto G = groups(U, 0);
	auto m = KnotVectorUtils::GetKnotMultiplicityMap(U);
	ctx.check(m.size() == G.size(), "multiplicity-map", strf("%zu distinct knots, not %zu", m.size(), G.size()));
	size_t i = 0;
	for (auto& q : m) { ctx.check(q.first == G[i].first && q.second == G[i].second, "multiplicity-map", strf("%.17g: %d", q.first, q.second)); i++; }
	auto n = KnotVectorUtils::GetInternalKnotMultiplicityMap(U);
	ctx.check(n.size() + 2 == G.size(), "internal-map", strf("%zu internal knots of %zu distinct", n.size(), G.size()));
	i = 1;
	for (auto& q : n) { ctx.check(q.first == G[i].first && q.second == G[i].second, "internal-map", strf("%.17g: %d", q.first, q.second)); i++; }
	// continuity at a knot is the degree less the multiplicity, between knots the full degree
	auto& q = G[g.irange(0, (int)G.size() - 1)];
	int c = KnotVectorUtils::GetContinuity(p, U, q.first);
	ctx.check(c == p - q.second, "continuity", strf("%d at a knot of multiplicity %d, degree %d", c, q.second, p));
	if (G.size() > 1)
	{
		int k = g.irange(0, (int)G.size() - 2);
		double t = G[k].first + (G[k + 1].first - G[k].first) * g.uni(0.2, 0.8);
		ctx.check(KnotVectorUtils::GetContinuity(p, U, t) == p, "continuity", strf("at %.17g between knots", t));
	}
	ctx.check(U == U0, "input-untouched", "modified");
}
SCENARIO(rescale, 2)
{
	Rng& g = ctx.rng;
	int p;
	Knots U = knots(ctx, p);
	double a = g.uni(-20, 20), b = a + g.logu(0.01, 100);
	Knots R = KnotVectorUtils::Rescale(U, a, b);
	ctx.check(R.size() == U.size(), "rescale-size", strf("%zu", R.size()));
	ld tol = 1e-12L * (1 + fabsl(a) + fabsl(b) + (fabsl(U.front()) + fabsl(U.back())) / (U.back() - U.front()) * (b - a));
	for (size_t i = 0; i < U.size(); i++)
	{
		ctx.near(R[i], a + (ld)(b - a) * ((ld)U[i] - U.front()) / ((ld)U.back() - U.front()), tol, "rescale-affine", strf("knot %zu", i).c_str());
		if (i) ctx.check(R[i] >= R[i - 1] && (U[i] != U[i - 1] || R[i] == R[i - 1]), "rescale-order", strf("knot %zu", i));
	}
}
// vectors over the same domain that share some knots, some of them only up to rounding
static std::vector<Knots> family(Ctx& ctx, int n)
{
	Rng& g = ctx.rng;
	int p;
	Knots U = knots(ctx, p, false);
	auto G = groups(U, 0);
	double a = U.front(), b = U.back();
	std::vector<double> pool;
	for (auto& q : G) if (q.first > a && q.first < b) pool.push_back(q.first);
	for (int i = 0; i < 6; i++)
	{
		double t = a + (b - a) * g.uni();
		bool ok = true;
		for (double q : pool) if (fabs(q - t) < 1e-3 * (b - a) + 1e-4 * (1 + fabs(t))) ok = false;
		if (t - a > 1e-2 * (b - a) && b - t > 1e-2 * (b - a) && ok) pool.push_back(t);
	}
	std::vector<Knots> F;
	bool rough = g.chance(0.4);
	ctx.bucket("shared knots", rough ? "up to rounding" : "exact");
	for (int k = 0; k < n; k++)
	{
		Knots V;
		for (double t : pool) if (g.chance(0.5))
		{
			int m = g.irange(1, p);
			double x = rough && g.chance(0.5) ? t * (1 + g.uni(-4, 4) * 1e-16) : t;
			for (int i = 0; i < m; i++) V.push_back(x);
		}
		int e = g.chance(0.8) ? p + 1 : g.irange(1, p + 1);
		for (int i = 0; i < e; i++) { V.push_back(a); V.push_back(b); }
		std::sort(V.begin(), V.end());
		F.push_back(V);
		ctx.dump("member", V);
	}
	ctx.bucket("members", n);
	return F;
}
static void judge(Ctx& ctx, const std::vector<Knots>& F, const std::vector<Knots>& I)
{
	ctx.check(I.size() == F.size(), "merge-size", strf("%zu", I.size()));
	// the largest multiplicity of every knot
	std::vector<std::pair<double, int>> want;
	for (auto& U : F) for (auto& q : groups(U, 1e-9))
	{
		bool hit = false;
		for (auto& w : want) if (fabs(w.first - q.first) < 1e-9 * (1 + fabs(q.first))) { w.second = std::max(w.second, q.second); hit = true; }
		if (!hit) want.push_back(q);
	}
	std::sort(want.begin(), want.end());
	for (size_t k = 0; k < F.size(); k++)
	{
		ctx.check(std::is_sorted(I[k].begin(), I[k].end()), "merge-sorted", strf("elements of vector %zu", k));
		auto G = groups(withKnots(F[k], I[k]), 1e-9);
		ctx.check(G.size() == want.size(), "merge-common", strf("vector %zu: %zu distinct knots, not %zu", k, G.size(), want.size()));
		for (size_t i = 0; i < G.size(); i++)
			ctx.check(fabs(G[i].first - want[i].first) < 1e-9 * (1 + fabs(G[i].first)) && G[i].second == want[i].second, "merge-common", strf("vector %zu knot %.17g: multiplicity %d, largest %d", k, G[i].first, G[i].second, want[i].second));
		// a knot that is raised is raised at its own value
		for (double x : I[k]) for (double y : F[k]) if (x != y) ctx.check(fabs(x - y) > 1e-9 * (1 + fabs(x)), "merge-own-value", strf("%.17g beside %.17g", x, y));
	}
}
SCENARIO(merge_two, 3)
{
	auto F = family(ctx, 2);
	Knots a, b;
	KnotVectorUtils::GetInsertedKnotElement(F[0], F[1], a, b);
	judge(ctx, F, { a, b });
}
SCENARIO(merge_many, 4)
{
	auto F = family(ctx, ctx.rng.irange(1, 6)), F0 = F;
	judge(ctx, F, KnotVectorUtils::GetInsertedKnotElements(F));
	ctx.check(F == F0, "input-untouched", "modified");
}
SCENARIO(clamp_elements, 2)
{
	Rng& g = ctx.rng;
	int p;
	Knots U = knots(ctx, p);
	double a = U.front(), b = U.back();
	Knots R = KnotVectorUtils::GetInsertedKnotElement(p, U, a, b);
	auto G = groups(withKnots(U, R), 1e-9), O = groups(U, 1e-9);
	ctx.check(G.size() == O.size() && G.front().second == std::max(p + 1, O.front().second) && G.back().second == std::max(p + 1, O.back().second), "clamp-elements", strf("ends %d and %d", G.front().second, G.back().second));
	for (size_t i = 1; i + 1 < G.size(); i++) ctx.check(G[i].second == O[i].second, "clamp-elements", strf("interior knot %zu changed", i));
	// parameters between knots
	auto pick = [&](int k) { return O[k].first + (O[k + 1].first - O[k].first) * g.uni(0.2, 0.8); };
	if (O.size() < 2) return;
	int i = g.irange(0, (int)O.size() - 2), j = g.irange(0, (int)O.size() - 2);
	if (i > j) std::swap(i, j);
	double s = pick(i), e = pick(j);
	if (s > e) std::swap(s, e);
	if (e - s < 1e-4 * (1 + fabs(e))) return;
	Knots Q = KnotVectorUtils::GetInsertedKnotElement(p, U, s, e);
	Knots want(p + 1, s);
	for (int k = 0; k <= p; k++) want.push_back(e);
	ctx.check(Q == want, "clamp-elements", strf("%zu elements", Q.size()));
}
SCENARIO(halve_longest, 3)
{
	Rng& g = ctx.rng;
	int p;
	Knots U = knots(ctx, p);
	int n = g.irange(0, g.chance(0.2) ? 60 : 12);
	ctx.bucket("inserted", n == 0 ? "none" : n < 4 ? "few" : n < 13 ? "some" : "many");
	ctx.note(strf("count %d", n));
	Knots R = KnotVectorUtils::GetInsertedKnotElements(n, U);
	ctx.check((int)R.size() == n && std::is_sorted(R.begin(), R.end()), "halve-count", strf("%zu elements", R.size()));
	auto gaps = [](const Knots& K) { std::vector<ld> v; for (size_t i = 1; i < K.size(); i++) if (K[i] > K[i - 1]) v.push_back((ld)K[i] - K[i - 1]); std::sort(v.begin(), v.end()); return v; };
	std::vector<ld> want = gaps(U), got = gaps(withKnots(U, R));
	for (int i = 0; i < n; i++) { ld m = want.back() / 2; want.pop_back(); want.push_back(m); want.push_back(m); std::sort(want.begin(), want.end()); }
	ctx.check(got.size() == want.size(), "halve-distinct", strf("%zu spans, not %zu", got.size(), want.size()));
	for (size_t i = 0; i < want.size(); i++) ctx.near(got[i], want[i], 5e-6L * (1 + want.back()), "halve-longest", strf("span %zu by length", i).c_str());
}
SCENARIO(uniform, 3)
{
	Rng& g = ctx.rng;
	int p = g.irange(1, 6), n = g.irange(1, 8);
	double a = g.uni(-5, 5), h = g.logu(0.05, 3);
	if (g.chance(0.4)) { a = std::round(a); h = 1; }
	int inner = g.irange(1, p), ends = g.irange(1, p + 1);
	int kind = g.irange(0, 4);
	std::vector<std::pair<double, int>> G;
	for (int i = 0; i <= n + 1; i++) G.push_back({ a + h * i, i == 0 || i == n + 1 ? ends : inner });
	bool want = true;
	int k = g.irange(1, n);
	if (kind == 1) { G[k].first += h * g.uni(0.05, 0.9) * (g.chance(0.5) ? 1 : -1); want = false; }
	else if (kind == 2) { if (n > 1) { G[k].second += g.chance(0.5) || G[k].second == 1 ? 1 : -1; want = false; } }
	else if (kind == 3) { G[g.chance(0.5) ? 0 : n + 1].second += 1; want = false; }
	else if (kind == 4) { G[g.chance(0.5) ? 0 : n + 1].first += h * g.uni(-0.5, 0.5); want = false; double d0 = G[1].first - G[0].first, d1 = G[n + 1].first - G[n].first; if (fabs(d0 - h) < 1e-3 && fabs(d1 - h) < 1e-3) return; }
	if (kind == 4 && h < 1e-2) return;
	Knots U;
	for (auto& q : G) for (int i = 0; i < q.second; i++) U.push_back(q.first);
	ctx.bucket("kind", kind);
	ctx.cls(strf("p%d n%d i%d e%d", p, n, inner, ends));
	ctx.dump("knots", U);
	ctx.nontrivial = true;
	bool got = KnotVectorUtils::IsUniform(U);
	ctx.check(got == want, "uniform", got ? "called uniform" : "not called uniform");
}
SCENARIO(control_points, 2)
{
	Rng& g = ctx.rng;
	int m = g.irange(1, 6), n = g.irange(1, 6), p = g.irange(1, 6);
	std::vector<std::vector<XYZW>> P(m, std::vector<XYZW>(n));
	int wm = g.irange(0, 2);
	for (auto& r : P) for (auto& q : r) q = XYZW(genPoint(g, 10), genWeight(g, wm));
	ctx.cls(strf("%dx%dx%d", m, n, p));
	ctx.bucket("weights", wmName(wm));
	ctx.nontrivial = true;
	auto X = ControlPointsUtils::ToXYZ(P);
	auto Y = ControlPointsUtils::ToXYZW(X);
	ctx.check((int)X.size() == m && (int)Y.size() == m, "points-shape", "rows");
	for (int i = 0; i < m; i++)
	{
		auto x = ControlPointsUtils::ToXYZ(P[i]);
		ctx.check((int)X[i].size() == n && (int)x.size() == n && (int)Y[i].size() == n, "points-shape", "columns");
		for (int j = 0; j < n; j++)
		{
			nearPt(ctx, X[i][j], V4(P[i][j]).proj(), 1e-12L * 20, "points-project", strf("[%d][%d]", i, j));
			nearPt(ctx, x[j], V4(P[i][j]).proj(), 1e-12L * 20, "points-project", strf("row %d [%d]", i, j));
			for (int k = 0; k < 3; k++) ctx.check(Y[i][j][k] == X[i][j][k], "points-lift", strf("[%d][%d]", i, j));
			ctx.check(Y[i][j].GetW() == 1, "points-lift", "weight");
		}
	}
	std::vector<std::vector<double>> A(n, std::vector<double>(p)), B(p, std::vector<double>(m));
	for (auto& r : A) for (auto& q : r) q = g.uni(-3, 3);
	for (auto& r : B) for (auto& q : r) q = g.uni(-3, 3);
	auto R = ControlPointsUtils::Multiply(P, A);
	auto S = ControlPointsUtils::Multiply(B, P);
	ctx.check((int)R.size() == m && (int)S.size() == p, "product-shape", "rows");
	ld sc = 0;
	for (auto& r : P) for (auto& q : r) for (int k = 0; k < 4; k++) sc = std::max(sc, fabsl((ld)q[k]));
	for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) for (int c = 0; c < 4; c++)
	{
		ld s = 0;
		for (int k = 0; k < n; k++) s += (ld)P[i][k][c] * A[k][j];
		ctx.check((int)R[i].size() == p, "product-shape", "columns");
		ctx.near(R[i][j][c], s, 1e-12L * sc * 20, "product", strf("points*matrix [%d][%d]", i, j).c_str());
	}
	for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) for (int c = 0; c < 4; c++)
	{
		ld s = 0;
		for (int k = 0; k < m; k++) s += (ld)B[i][k] * P[k][j][c];
		ctx.check((int)S[i].size() == n, "product-shape", "columns");
		ctx.near(S[i][j][c], s, 1e-12L * sc * 20, "product", strf("matrix*points [%d][%d]", i, j).c_str());
	}
}
#include "main.inc"
