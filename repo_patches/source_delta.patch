From d20b4c3589068ae868c69e4a72c62001b7007e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:42 +0000
Subject: [PATCH 001/106] fix: Bernstein() ran the recurrence from k=index
 instead of k=1, wrong for 2<=index<degree

---
 src/LNLib/Algorithm/Polynomials.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index 124a398..b9fc014 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -49,7 +49,7 @@ double Polynomials::Bernstein(int index, int degree, double paramT)
 	temp[degree - index] = 1.0;
 	double t1 = 1.0 - paramT;
 
-	for (int k = index; k <= degree; k++)
+	for (int k = 1; k <= degree; k++)
 	{
 		for (int j = degree; j >= k; j--)
 		{
-- 
2.43.0


From fa765c90efe7aa2f0c045e2d86c0c62cef817774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:42 +0000
Subject: [PATCH 002/106] fix: GetPointOnQuadraticArc divided every control
 point by the first weight

---
 src/LNLib/Geometry/Curve/BezierCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index 443de54..fb3fb51 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -29,9 +29,9 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 	double w0 = startPoint.GetW();
 	XYZ P0 = XYZ(startPoint.GetWX()/w0, startPoint.GetWY()/w0, startPoint.GetWZ()/w0);
 	double w1 = middlePoint.GetW();
-	XYZ P1 = XYZ(middlePoint.GetWX() / w0, middlePoint.GetWY() / w0, middlePoint.GetWZ() / w0);
+	XYZ P1 = XYZ(middlePoint.GetWX() / w1, middlePoint.GetWY() / w1, middlePoint.GetWZ() / w1);
 	double w2 = endPoint.GetW();
-	XYZ P2 = XYZ(endPoint.GetWX() / w0, endPoint.GetWY() / w0, endPoint.GetWZ() / w0);
+	XYZ P2 = XYZ(endPoint.GetWX() / w2, endPoint.GetWY() / w2, endPoint.GetWZ() / w2);
 
 	return  ((1 - paramT) * (1 - paramT) * w0 * P0 + 2 * paramT * (1 - paramT) * w1 * P1 + paramT * paramT * w2 * P2) / ((1 - paramT) * (1 - paramT) * w0 + 2 * paramT * (1 - paramT) * w1 + paramT * paramT * w2);
 }
-- 
2.43.0


From 114f105f41a03b581a2515470f716944d0364581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:42 +0000
Subject: [PATCH 003/106] fix: BezierSurface::Check declared its control net as
 a flat vector and could not be instantiated

---
 src/LNLib/include/BezierSurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/include/BezierSurface.h b/src/LNLib/include/BezierSurface.h
index 8c44c70..d779e1d 100644
--- a/src/LNLib/include/BezierSurface.h
+++ b/src/LNLib/include/BezierSurface.h
@@ -30,7 +30,7 @@ namespace LNLib {
 		{
 			int degreeU = surface.DegreeU;
 			int degreeV = surface.DegreeV;
-			std::vector<T> controlPoints = surface.ControlPoints;
+			std::vector<std::vector<T>> controlPoints = surface.ControlPoints;
 
 			VALIDATE_ARGUMENT(degreeU > 0, "degreeU", "Degree must be greater than zero.");
 			VALIDATE_ARGUMENT(degreeV > 0, "degreeV", "Degree must be greater than zero.");
-- 
2.43.0


From 5576836fa71f299c9a152ae7e1af2536886c6d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:48 +0000
Subject: [PATCH 004/106] fix: curvature, torsion and normal assumed arc-length
 parametrisation wherever the speed happens to be one

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 42 +++++--------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e63ba68..e2767bc 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -313,10 +313,6 @@ double LNLib::NurbsCurve::Curvature(const LN_NurbsCurve& curve, double paramT)
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ d1 = derivatives[1];
 	XYZ d2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(d1.Length(), 1.0))
-	{
-		return d2.Length();
-	}
 	double numerator = d1.CrossProduct(d2).Length();
 	double denominator = pow(d1.Length(), 3);
 	return numerator / denominator;
@@ -333,29 +329,14 @@ LNLib::XYZ LNLib::NurbsCurve::Normal(const LN_NurbsCurve& curve, CurveNormal nor
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
+	XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
+	if (normalType == CurveNormal::Binormal)
 	{
-		XYZ curveNormal = der2 / der2.Length();
-		if (normalType == CurveNormal::Normal)
-		{
-			return curveNormal;
-		}
-		else
-		{
-			return tangent.CrossProduct(curveNormal);
-		}
+		return b;
 	}
 	else
 	{
-		XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
-		if (normalType == CurveNormal::Binormal)
-		{
-			return b;
-		}
-		else
-		{
-			return b.Normalize().CrossProduct(tangent.Normalize());
-		}
+		return b.Normalize().CrossProduct(tangent.Normalize());
 	}
 }
 
@@ -431,18 +412,9 @@ double LNLib::NurbsCurve::Torsion(const LN_NurbsCurve& curve, double paramT)
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
 	XYZ der3 = derivatives[3];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = der2.DotProduct(der2);
-		return numerator / denominator;
-	}
-	else
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
-		return numerator / denominator;
-	}
+	double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
+	double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
+	return numerator / denominator;
 }
 
 int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot, int times, LN_NurbsCurve& result)
-- 
2.43.0


From 75e3164d8d8d822ac92963489b79d7e7bc339045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:48 +0000
Subject: [PATCH 005/106] fix: ProjectNormal wrote past its buffer on closed
 curves and did not project the backward pass

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e2767bc..abecab6 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -382,13 +382,13 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 	{
 		Blist[m] = Blist[0];
 
-		std::vector<XYZ> Baver(m);
+		std::vector<XYZ> Baver(size);
 		Baver[m] = Blist[0];
 
 		for (int i = m - 1; i >= 1; i--)
 		{
-			XYZ Ti1 = ComputeRationalCurveDerivatives(curve, 1, knotVector[i + 1])[1].Normalize();
-			XYZ bi = Baver[i + 1] + Ti1;
+			XYZ Ti = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+			XYZ bi = Baver[i + 1] - (Baver[i + 1].DotProduct(Ti)) * Ti;
 			Baver[i] = bi.Normalize();
 		}
 
-- 
2.43.0


From 632142dc31fc3ab70fcd73691ef03bc7e3774f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:04 +0000
Subject: [PATCH 006/106] fix: DecomposeToBeziers looped forever (degree 1) or
 lost segments when an interior knot has multiplicity >= degree

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index abecab6..375061d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -689,18 +689,18 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 					beziers[nb + 1].ControlPoints[save] = beziers[nb].ControlPoints[degree];
 				}
 			}
+		}
 
-			nb++;
-			if (b < m)
+		nb++;
+		if (b < m)
+		{
+			for (int i = std::max(0, degree - multi); i <= degree; i++)
 			{
-				for (int i = degree - multi; i <= degree; i++)
-				{
-					beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
-				}
-
-				a = b;
-				b += 1;
+				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
+
+			a = b;
+			b += 1;
 		}
 	}
 	return beziers;
-- 
2.43.0


From b9010a984e3e61d48d225a84ea371a33bde6df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:07 +0000
Subject: [PATCH 007/106] fix: ElevateDegree returned surplus control points
 and knots when interior knots are repeated

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 375061d..878f259 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1059,6 +1059,10 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 		}
 	}
 
+	nh = mh - ph - 1;
+	updatedControlPoints.resize(nh + 1);
+	updatedKnotVector.resize(nh + ph + 2);
+
 	result.Degree = ph;
 	result.KnotVector = updatedKnotVector;
 	result.ControlPoints = updatedControlPoints;
-- 
2.43.0


From c68a05995c10257afac4af3cb750b3f89f7373a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:07 +0000
Subject: [PATCH 008/106] fix: ReduceDegree indexed before its buffer for
 degree one

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 878f259..a22d70f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1078,7 +1078,7 @@ bool LNLib::NurbsCurve::ReduceDegree(const LN_NurbsCurve& curve, LN_NurbsCurve&
 
 	int size = controlPoints.size();
 	bool isBezier = ValidationUtils::IsValidBezier(degree, size);
-	if (!isBezier) return false;
+	if (!isBezier || !ValidationUtils::IsValidDegreeReduction(degree)) return false;
 
 	int r = floor((degree - 1) / 2);
 	std::vector<XYZW> updatedControlPoints(degree);
-- 
2.43.0


From 3213e1481d4babbc0a14b5fab65b7c62f6e104ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:07 +0000
Subject: [PATCH 009/106] fix: surface RemoveKnot produced a ragged or empty
 net when a row's knot is not removable

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 73ab061..868a602 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -991,7 +991,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 
 			LN_NurbsCurve newtc;
 
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				(i > 0 && newtc.KnotVector.size() != tempKnotVector.size()))
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
@@ -1011,7 +1015,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 			tc.ControlPoints = controlPoints[i];
 
 			LN_NurbsCurve newtc;
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				(i > 0 && newtc.KnotVector.size() != tempKnotVector.size()))
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
-- 
2.43.0


From d2f6e0c896bd93569aad425d8dc327cf2c6d02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 010/106] fix: RemoveKnot changed curves whose knot is
 removable, corrupted repeated removals and read out of range for end knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 58 +++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a22d70f..ac1a852 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -116,6 +116,45 @@ namespace LNLib
 		}
 	}
 
+	// The NURBS Book 2nd Edition Page185, Algorithm A5.8 for a single removal.
+	bool RemoveKnotWithTolerance(const LN_NurbsCurve& curve, double removeKnot, double tolerance, LN_NurbsCurve& result)
+	{
+		int degree = curve.Degree;
+		const auto& knotVector = curve.KnotVector;
+
+		int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
+		int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
+		int first = r - degree;
+		int last = r - s;
+		if (s == 0 || first < 1 || !MathUtils::IsAlmostEqualTo(knotVector[r], removeKnot) ||
+			NurbsCurve::ComputerRemoveKnotErrorBound(curve, r) > tolerance)
+		{
+			return false;
+		}
+
+		std::vector<XYZW> updatedControlPoints = curve.ControlPoints;
+		int i = first;
+		int j = last;
+		while (j - i > 0)
+		{
+			double alphai = (removeKnot - knotVector[i]) / (knotVector[i + degree + 1] - knotVector[i]);
+			double alphaj = (removeKnot - knotVector[j]) / (knotVector[j + degree + 1] - knotVector[j]);
+			updatedControlPoints[i] = (updatedControlPoints[i] - (1.0 - alphai) * updatedControlPoints[i - 1]) / alphai;
+			updatedControlPoints[j] = (updatedControlPoints[j] - alphaj * updatedControlPoints[j + 1]) / (1.0 - alphaj);
+			i++;
+			j--;
+		}
+		updatedControlPoints.erase(updatedControlPoints.begin() + (2 * r - s - degree) / 2);
+
+		std::vector<double> restKnotVector = knotVector;
+		restKnotVector.erase(restKnotVector.begin() + r);
+
+		result.Degree = degree;
+		result.KnotVector = restKnotVector;
+		result.ControlPoints = updatedControlPoints;
+		return true;
+	}
+
 	void OffsetByTillerAndHanson(const LN_NurbsCurve& curve, double offset, LN_NurbsCurve& result)
 	{
 		int degree = curve.Degree;
@@ -718,12 +757,31 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	double tol = ValidationUtils::ComputeCurveModifyTolerance(controlPoints);
 	int n = controlPoints.size() - 1;
 
+	LN_NurbsCurve current = curve;
+	int removed = 0;
+	while (removed < times && RemoveKnotWithTolerance(current, removeKnot, tol, current))
+	{
+		removed++;
+	}
+	if (removed > 0)
+	{
+		result = current;
+		return true;
+	}
+
+	// Not removable within tolerance: approximate a single removal.
+	times = 1;
+
 	int order = degree + 1;
 	int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
 	int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
 
 	int first = r - degree;
 	int last = r - s;
+	if (s == 0 || first < 1 || !MathUtils::IsAlmostEqualTo(knotVector[r], removeKnot))
+	{
+		return false;
+	}
 
 	std::vector<double> restKnotVector = knotVector;
 	int m = n + degree + 1;
-- 
2.43.0


From 696dcff9fe8e20b6fd17198857c1666c5a4f6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 011/106] fix: RemoveExcessiveKnots removed knots the curve
 needs and changed its shape

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ac1a852..55419bd 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -910,7 +910,7 @@ void LNLib::NurbsCurve::RemoveExcessiveKnots(const LN_NurbsCurve& curve, LN_Nurb
 			if (currentMultiplicity <= 1) continue;
 
 			LN_NurbsCurve tempResult;
-			if (NurbsCurve::RemoveKnot(result, u, 1, tempResult))
+			if (RemoveKnotWithTolerance(result, u, ValidationUtils::ComputeCurveModifyTolerance(result.ControlPoints), tempResult))
 			{
 				result = tempResult;
 				changed = true;
-- 
2.43.0


From 3740815646e786fd7f16f63c26679aea3216c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 012/106] fix: corner cutting picked the wrong control points
 for parameters just below a knot

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 55419bd..ce7dece 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -554,7 +554,8 @@ LNLib::XYZ LNLib::NurbsCurve::GetPointOnCurveByCornerCut(const LN_NurbsCurve& cu
 	}
 
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, paramT);
-	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, paramT);
+	int originMultiplicity = MathUtils::IsAlmostEqualTo(paramT, knotVector[knotSpanIndex]) ? 
+								Polynomials::GetKnotMultiplicity(knotVector, knotVector[knotSpanIndex]) : 0;
 
 	int times = degree - originMultiplicity;
 	std::vector<XYZW> temp(times + 1);
-- 
2.43.0


From 6b2367c5d8c8717df638f04eb18a7e75cd2c39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:20 +0000
Subject: [PATCH 013/106] fix: InsertKnot changed the curve for a parameter
 that equals a knot only up to rounding

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ce7dece..d380dcd 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -464,6 +464,15 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 
 	VALIDATE_ARGUMENT(times > 0, "times", "Times must be greater than zero.");
 
+	for (double knot : knotVector)
+	{
+		if (MathUtils::IsAlmostEqualTo(knot, insertKnot))
+		{
+			insertKnot = knot;
+			break;
+		}
+	}
+
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
-- 
2.43.0


From 10fc9277f822397ff790cfa1c947d7d09bb2e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:24 +0000
Subject: [PATCH 014/106] fix: unqualified abs() resolved to the integer
 overload and truncated curvatures, reparametrised weights and tolerances

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     | 10 +++++-----
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d380dcd..0f83ed2 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -53,7 +53,7 @@ namespace LNLib
 
 		double differ = left + right - simpson;
 		if (MathUtils::IsAlmostEqualTo(differ, 0.0) || 
-			MathUtils::IsLessThan(abs(differ) / 15.0, tolearance))
+			MathUtils::IsLessThan(std::abs(differ) / 15.0, tolearance))
 		{
 			length = left + right + differ / 15.0;
 		}
@@ -1536,7 +1536,7 @@ void LNLib::NurbsCurve::Reparametrize(const LN_NurbsCurve& curve, double alpha,
 			double lambda = updatedKnotVector[i + j] * gamma - alpha;
 			temp = temp * lambda;
 		}
-		double newW = abs(controlPoints[i].GetW() * temp);
+		double newW = std::abs(controlPoints[i].GetW() * temp);
 		updatedControlPoints[i] = XYZW(const_cast<XYZW&>(controlPoints[i]).ToXYZ(true), newW);
 	}
 
@@ -3347,8 +3347,8 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	double abk = D.Distance(movePoint2) / controlLegLength;
 	double abk1 = C.Distance(movePoint1) / controlLegLength;
 
-	if (MathUtils::IsLessThan(abs(ak), 0.0) || MathUtils::IsLessThan(abs(ak1), 0.0) ||
-		MathUtils::IsLessThan(abs(abk), 0.0) || MathUtils::IsLessThan(abs(abk1), 0.0))
+	if (MathUtils::IsLessThan(std::abs(ak), 0.0) || MathUtils::IsLessThan(std::abs(ak1), 0.0) ||
+		MathUtils::IsLessThan(std::abs(abk), 0.0) || MathUtils::IsLessThan(std::abs(abk1), 0.0))
 	{
 		return false;
 	}
@@ -3392,7 +3392,7 @@ void LNLib::NurbsCurve::Warping(const LN_NurbsCurve& curve, const std::vector<do
 	{
 		double weight = temp[i].GetW();
 		XYZ currentPoint = temp[i].ToXYZ(true);
-		XYZ newPoint = currentPoint + warpShape[i] * abs(warpDistance) * W.Normalize();
+		XYZ newPoint = currentPoint + warpShape[i] * std::abs(warpDistance) * W.Normalize();
 		resultControlPoints.emplace_back(XYZW(newPoint, weight));
 	}
 	
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 868a602..7834918 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -290,8 +290,8 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 
 	double K = (L * N - M * M) / denominator;
 	double H = (E * N + G * L - 2 * F * M) / (2 * denominator);
-	double k1 = H + std::sqrt(abs(H * H - K));
-	double k2 = H - std::sqrt(abs(H * H - K));
+	double k1 = H + std::sqrt(std::abs(H * H - K));
+	double k2 = H - std::sqrt(std::abs(H * H - K));
 
 	if (curvature == SurfaceCurvature::Gauss)
 	{
@@ -311,7 +311,7 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 	}
 	else if (curvature == SurfaceCurvature::Abs)
 	{
-		return abs(k1) + abs(k2);
+		return std::abs(k1) + std::abs(k2);
 	}
 	else if (curvature == SurfaceCurvature::Rms)
 	{
@@ -1610,7 +1610,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double a2 = (c1 * c1 * s2 - c1 * c2 * s1 - c1 * F * s3 + c2 * E * s3 - E * s2 + F * s1)/(c1 * c1 * G - 2 * c1 * c2 * F + c2 * c2 * E - E * G + F * F);
 
 		double curvature = (L * a1 * a1 + 2 * M * a1* a2 + N * a2 * a2)/(E * a1 * a1 + 2 * F * a1 * a2 + G * a2 * a2);
-		double radius = 1 / abs(curvature);
+		double radius = 1 / std::abs(curvature);
 
 		XYZ m = p0 + radius * normal;
 		XYZ q = givenPoint + (m - givenPoint) * (1 - radius / (m.Distance(givenPoint)));
@@ -1627,8 +1627,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		u0 = ut;
 		v0 = vt;
 
-		bool condition1 = MathUtils::IsLessThanOrEqual(abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(abs(deltaV), Constants::DoubleEpsilon);
-		bool condition2 = MathUtils::IsLessThanOrEqual((abs(deltaU) * abs(deltaU) + abs(deltaV) * abs(deltaV)), Constants::DoubleEpsilon);
+		bool condition1 = MathUtils::IsLessThanOrEqual(std::abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(std::abs(deltaV), Constants::DoubleEpsilon);
+		bool condition2 = MathUtils::IsLessThanOrEqual((std::abs(deltaU) * std::abs(deltaU) + std::abs(deltaV) * std::abs(deltaV)), Constants::DoubleEpsilon);
 
 		if (condition1 || condition2)
 		{
-- 
2.43.0


From 083a9da610a92ef6232d798b88ad08661eea6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:57 +0000
Subject: [PATCH 015/106] fix: ToClampCurve failed on partly clamped curves and
 InsertKnot was wrong at the end of an unclamped domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 44 ++++++++++++++++---------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 0f83ed2..efe3705 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -475,6 +475,11 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
+	// The span search stops before the end of the domain, insertion needs the last occurrence of the knot.
+	while (knotSpanIndex + 2 < knotVector.size() && knotVector[knotSpanIndex + 1] <= insertKnot)
+	{
+		knotSpanIndex++;
+	}
 
 	if (originMultiplicity + times > degree + 1)
 	{
@@ -3603,24 +3608,33 @@ void LNLib::NurbsCurve::ToClampCurve(const LN_NurbsCurve& curve, LN_NurbsCurve&
 	int upMulti = Polynomials::GetKnotMultiplicity(knotVector, up);
 	int umpMulti = Polynomials::GetKnotMultiplicity(knotVector, ump);
 	
-	LN_NurbsCurve tc;
-	int t1 = InsertKnot(curve, up, degree + 1 - upMulti, tc);
-	LN_NurbsCurve temp;
-	temp = tc;
-	int t2 = InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
+	LN_NurbsCurve tc = curve;
+	if (upMulti < degree + 1)
+	{
+		LN_NurbsCurve temp = tc;
+		InsertKnot(temp, up, degree + 1 - upMulti, tc);
+	}
+	if (umpMulti < degree + 1)
+	{
+		LN_NurbsCurve temp = tc;
+		InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
+	}
 
-	std::vector<double> kv = tc.KnotVector;
-	std::vector<XYZW> cps = tc.ControlPoints;
-	knotVector.resize(kv.size() - t1 - t2, 0.0);
-	controlPoints.resize(knotVector.size() - degree - 1);
-	for (int i = knotVector.size() - 1; i >= 0; i--)
+	// Keep the part between the two ends, which have multiplicity degree + 1 now.
+	const std::vector<double>& kv = tc.KnotVector;
+	const std::vector<XYZW>& cps = tc.ControlPoints;
+	int first = 0;
+	while (!MathUtils::IsAlmostEqualTo(kv[first], up))
 	{
-		knotVector[i] = kv[i + degree];
-		if (i < controlPoints.size())
-		{
-			controlPoints[i] = cps[i + degree];
-		}
+		first++;
+	}
+	int last = kv.size() - 1;
+	while (!MathUtils::IsAlmostEqualTo(kv[last], ump))
+	{
+		last--;
 	}
+	knotVector.assign(kv.begin() + first, kv.begin() + last + 1);
+	controlPoints.assign(cps.begin() + first, cps.begin() + (last - degree));
 
 	result.Degree = tc.Degree;
 	result.KnotVector = knotVector;
-- 
2.43.0


From 83b31696ff08ed720d1f30dfcf69b7a959aed2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:57 +0000
Subject: [PATCH 016/106] fix: IsClosed compared points outside the domain and
 called open curves with repeated control points closed

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 38 +++----------------------
 1 file changed, 4 insertions(+), 34 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index efe3705..1afad96 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1242,45 +1242,15 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 {
 	std::vector<double> knotVector = curve.KnotVector;
-	double first = knotVector[0];
-	double end = knotVector[knotVector.size() - 1];
+	// The curve is defined on [knotVector[degree], knotVector[m - degree]], clamped or not.
+	double first = knotVector[curve.Degree];
+	double end = knotVector[knotVector.size() - 1 - curve.Degree];
 
 	XYZ startPoint = GetPointOnCurve(curve, first);
 	XYZ endPoint = GetPointOnCurve(curve, end);
 
 	double distance = startPoint.Distance(endPoint);
-	bool isMatch = MathUtils::IsAlmostEqualTo(distance, 0.0);
-	if (isMatch) return true;
-
-	std::vector<XYZW> controlPoints = curve.ControlPoints;
-	int n = controlPoints.size() - 1;
-	XYZ last = controlPoints[n].ToXYZ(true);
-
-	bool flag = false;
-	int index = 0;
-	for (int i = 0; i < n; i++)
-	{
-		XYZ current = controlPoints[i].ToXYZ(true);
-		if (last.IsAlmostEqualTo(current))
-		{
-			index = i;
-			flag = true;
-			break;
-		}
-	}
-
-	if (!flag) return false;
-	if (index == 0) return true;
-	for (int i = index; i >= 0; i--)
-	{
-		XYZ current = controlPoints[i].ToXYZ(true);
-		XYZ another = controlPoints[n - index + i].ToXYZ(true);
-		if (!another.IsAlmostEqualTo(current))
-		{
-			return false;
-		}
-	}
-	return true;
+	return MathUtils::IsAlmostEqualTo(distance, 0.0);
 }
 
 double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ& givenPoint)
-- 
2.43.0


From e9b1ec8200611cd4ca347b7e8aff95b23c925c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:57 +0000
Subject: [PATCH 017/106] fix: SplitAt returned invalid halves for a parameter
 that equals a knot only up to rounding

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 1afad96..8c0ffa8 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1570,6 +1570,15 @@ bool LNLib::NurbsCurve::SplitAt(const LN_NurbsCurve& curve, double parameter, LN
 		return false;
 	}
 
+	// A parameter that equals an existing knot up to tolerance has to be that very knot.
+	for (int i = 0; i < knotVector.size(); i++)
+	{
+		if (MathUtils::IsAlmostEqualTo(parameter, knotVector[i]))
+		{
+			parameter = knotVector[i];
+			break;
+		}
+	}
 	int multi = Polynomials::GetKnotMultiplicity(knotVector, parameter);
 	std::vector<double> insert(degree + 1 - multi, parameter);
 	left = curve;
-- 
2.43.0


From 7ccf7828546af725876b31705d12f8b0e090bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:57 +0000
Subject: [PATCH 018/106] fix: Extract returned an invalid curve (wrong slices
 of knots and control points)

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 28 ++++++++-----------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8c0ffa8..41c36c9 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1624,27 +1624,17 @@ void LNLib::NurbsCurve::Extract(const LN_NurbsCurve& curve, double startParamete
 	VALIDATE_ARGUMENT(MathUtils::IsLessThan(startParameter, endParameter), "endParameter", "startParameter must less than endParameter.");
 
 	LN_NurbsCurve tempCurve = curve;
-
-	std::map<double, int> kmap = KnotVectorUtils::GetKnotMultiplicityMap(knotVector);
-
-	int mult_start = kmap[startParameter];
-	int insert_count_start = (degree + 1) - mult_start;
-	if (insert_count_start > 0) {
-		InsertKnot(tempCurve, startParameter, insert_count_start, tempCurve);
+	LN_NurbsCurve left;
+	LN_NurbsCurve right;
+	if (SplitAt(tempCurve, startParameter, left, right))
+	{
+		tempCurve = right;
 	}
-
-	int mult_end = kmap[endParameter];
-	int insert_count_end = (degree + 1) - mult_end;
-	if (insert_count_end > 0) {
-		InsertKnot(tempCurve, endParameter, insert_count_end, tempCurve);
+	if (SplitAt(tempCurve, endParameter, left, right))
+	{
+		tempCurve = left;
 	}
-
-	int ks = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, startParameter);
-	int ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter);
-
-	result.Degree = degree;
-	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks, tempCurve.KnotVector.begin() + ke + 2);
-	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke + 1);
+	result = tempCurve;
 }
 
 bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& right, LN_NurbsCurve& result)
-- 
2.43.0


From 1e5821608a698deb0b3928e4a3de636d33e9e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:42 +0000
Subject: [PATCH 019/106] fix: curve point inversion returned diverged Newton
 iterates and parameters outside the domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 28 +++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 41c36c9..d00762c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1301,6 +1301,8 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 
 	double paramT = bestT;
 	int maxIterations = 20;
+	double closestT = bestT;
+	double closestDist = std::numeric_limits<double>::max();
 
 	for (int iter = 0; iter < maxIterations; ++iter)
 	{
@@ -1316,6 +1318,10 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		if (currentDist < Constants::DistanceEpsilon) {
 			return paramT;
 		}
+		if (currentDist < closestDist) {
+			closestDist = currentDist;
+			closestT = paramT;
+		}
 
 		double f = Ct.DotProduct(diff);
 		double df = Ct.DotProduct(Ct) + diff.DotProduct(Ctt);
@@ -1327,11 +1333,6 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		double deltaT = f / df;
 		double newT = paramT - deltaT;
 
-		if (std::abs(deltaT * Ct.Length()) < Constants::DistanceEpsilon) {
-			paramT = newT;
-			break;
-		}
-
 		if (!isClosed) {
 			newT = std::max(minParam, std::min(maxParam, newT));
 		}
@@ -1342,9 +1343,15 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		}
 
 		paramT = newT;
+
+		if (std::abs(deltaT * Ct.Length()) < Constants::DistanceEpsilon) {
+			break;
+		}
 	}
 
-	return paramT;
+	// Newton iteration may have left the neighbourhood of the closest point.
+	double lastDist = (GetPointOnCurve(curve, paramT) - givenPoint).Length();
+	return lastDist <= closestDist ? paramT : closestT;
 }
 
 std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve& curve, const XYZ& givenPoint)
@@ -1424,11 +1431,6 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			double deltaT = f / df;
 			double newT = paramT - deltaT;
 
-			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
-				paramT = newT;
-				break;
-			}
-
 			if (!isClosed) {
 				newT = std::max(minParam, std::min(maxParam, newT));
 			}
@@ -1439,6 +1441,10 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			}
 
 			paramT = newT;
+
+			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
+				break;
+			}
 		}
 
 		bool isDuplicate = false;
-- 
2.43.0


From 1a981b35c3d46d3ff7c66d04e805de665f591da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:47 +0000
Subject: [PATCH 020/106] fix: the arc length search could recurse forever when
 the quadrature is not exact

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d00762c..908a9d3 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -67,6 +67,10 @@ namespace LNLib
 	double GetParamByLength(const LN_NurbsCurve& curve, double start, double end, double givenLength, IntegratorType type)
 	{
 		double middle = (start + end) / 2.0;
+		if (!(middle > start && middle < end))
+		{
+			return middle;
+		}
 
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
-- 
2.43.0


From 413f881f2b92d08e8e2c9b6e0668bf1a5eaff522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:47 +0000
Subject: [PATCH 021/106] fix: length of a straight curve that turns back on
 itself was its chord

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 908a9d3..6c58d98 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3835,7 +3835,22 @@ double LNLib::NurbsCurve::ApproximateLength(const LN_NurbsCurve& curve, Integrat
 		std::vector<XYZW> controlPoints = curve.ControlPoints;
 		XYZ startPoint = controlPoints[0].ToXYZ(true);
 		XYZ endPoint = controlPoints[controlPoints.size() - 1].ToXYZ(true);
-		return startPoint.Distance(endPoint);
+		XYZ direction = endPoint - startPoint;
+		// The chord is the length only if the curve does not turn back on itself.
+		bool isMonotone = true;
+		for (int i = 0; i + 1 < controlPoints.size(); i++)
+		{
+			XYZ leg = controlPoints[i + 1].ToXYZ(true) - controlPoints[i].ToXYZ(true);
+			if (leg.DotProduct(direction) < 0.0 && !leg.IsZero())
+			{
+				isMonotone = false;
+				break;
+			}
+		}
+		if (isMonotone && !direction.IsZero())
+		{
+			return startPoint.Distance(endPoint);
+		}
 	}
 
 	if (curve.Degree == 1 && !isLinear)
-- 
2.43.0


From a1fd0e692f6c73f410454a46271caaadd8447ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:47 +0000
Subject: [PATCH 022/106] fix: Chebyshev length took the derivative of the next
 segment at knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 6c58d98..886e34a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3911,12 +3911,15 @@ double LNLib::NurbsCurve::ApproximateLength(const LN_NurbsCurve& curve, Integrat
 		case IntegratorType::Chebyshev:
 		{
 			std::vector<double> series = Integrator::ChebyshevSeries();
-			for (int i = degree; i < controlPoints.size(); i++) 
+			// Integrate each segment with its own derivatives, they may jump at the knots.
+			std::vector<LN_NurbsCurve> bezierCurves = DecomposeToBeziers(reCurve);
+			for (int i = 0; i < bezierCurves.size(); i++) 
 			{
-				double a = knotVector[i];
-				double b = knotVector[i + 1];
+				const std::vector<double>& bKnots = bezierCurves[i].KnotVector;
+				double a = bKnots[0];
+				double b = bKnots[bKnots.size() - 1];
 				FirstDerivativeLengthFunction function;
-				length += Integrator::ClenshawCurtisQuadrature(function, (void*)&reCurve, a, b, series);
+				length += Integrator::ClenshawCurtisQuadrature(function, (void*)&bezierCurves[i], a, b, series);
 			}
 			break;
 		}
-- 
2.43.0


From ea39f3c480340df77c1f283f56c993014bcc5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:02 +0000
Subject: [PATCH 023/106] fix: CreateArc used circle tangents for ellipses and
 put the control points off the curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 886e34a..008931a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1854,7 +1854,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 	XYZ nX = const_cast<XYZ&>(xAxis).Normalize();
 	XYZ nY = const_cast<XYZ&>(yAxis).Normalize();
 	XYZ P0 = center + xRadius * cos(startRad) * nX + yRadius * sin(startRad) * nY;
-	XYZ T0 = -sin(startRad) * nX + cos(startRad) * nY;
+	XYZ T0 = -xRadius * sin(startRad) * nX + yRadius * cos(startRad) * nY;
 
 	controlPoints[0] = XYZW(P0, 1);
 	int index = 0;
@@ -1864,7 +1864,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 		angle += dtheta;
 		XYZ P2 = center + xRadius * cos(angle) * nX + yRadius * sin(angle) * nY;
 		controlPoints[index + 2] = XYZW(P2, 1);
-		XYZ T2 = -sin(angle) * nX + cos(angle) * nY;
+		XYZ T2 = -xRadius * sin(angle) * nX + yRadius * cos(angle) * nY;
 
 		double param0, param2 = 0.0;
 		XYZ P1;
-- 
2.43.0


From e3b1cb1bdc0b6bf74c75092198e3b9d72c22a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:42 +0000
Subject: [PATCH 024/106] fix: SplitArc ignored the projected point's weight
 and lost the new weight, CreateOpenConic returned wrong multi-segment conics

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 17 +++++++++++++----
 src/LNLib/include/NurbsCurve.h          |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 008931a..3fd5138 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1954,12 +1954,21 @@ bool LNLib::NurbsCurve::CreateOneConicArc(const XYZ& start, const XYZ& startTang
 	return false;
 }
 
-void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight)
+void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight)
 {
-	insertPointAtStartSide = start + projectPoint;
-	insertPointAtEndSide = end + projectPoint;
+	if (MathUtils::IsAlmostEqualTo(projectPointWeight, 0.0))
+	{
+		// Infinite control point.
+		insertPointAtStartSide = start + projectPoint;
+		insertPointAtEndSide = end + projectPoint;
+	}
+	else
+	{
+		insertPointAtStartSide = (start + projectPointWeight * projectPoint) / (1.0 + projectPointWeight);
+		insertPointAtEndSide = (end + projectPointWeight * projectPoint) / (1.0 + projectPointWeight);
+	}
 	splitPoint = (insertPointAtStartSide + insertPointAtEndSide) / 2.0;
-	insertWeight = std::sqrt(1 + projectPointWeight) / 2.0;
+	insertWeight = std::sqrt((1.0 + projectPointWeight) / 2.0);
 }
 
 bool LNLib::NurbsCurve::CreateOpenConic(const XYZ& start, const XYZ& startTangent, const XYZ& end, const XYZ& endTangent, const XYZ& pointOnConic, LN_NurbsCurve& curve)
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index 62f28d9..f256034 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -209,7 +209,7 @@ namespace LNLib
 		/// The NURBS Book 2nd Edition Page317
 		/// Split arc.
 		/// </summary>
-		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight);
+		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight);
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page317
-- 
2.43.0


From 756e8f8d82dd0f24d205a487a9df74ad596b8d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:23 +0000
Subject: [PATCH 025/106] fix: five point tangents were NaN for collinear
 points

---
 src/LNLib/Algorithm/Interpolation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index aeeb627..c569aa5 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -26,7 +26,13 @@ namespace LNLib
 
 	double Getak(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
 	{
-		return (qk_1.CrossProduct(qk)).Length() / ((qk_1.CrossProduct(qk).Length()) + (qk1.CrossProduct(qk2)).Length());
+		double left = qk_1.CrossProduct(qk).Length();
+		double right = qk1.CrossProduct(qk2).Length();
+		if (left + right <= Constants::DoubleEpsilon * (qk_1.Length() * qk.Length() + qk1.Length() * qk2.Length()))
+		{
+			return 0.5;
+		}
+		return left / (left + right);
 	}
 
 	XYZ GetTk(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
-- 
2.43.0


From 5fc024b2747b131702cdd5bfee8d27cceefa3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:23 +0000
Subject: [PATCH 026/106] fix: Bessel tangents used swapped weights and divided
 by zero at repeated points

---
 src/LNLib/Algorithm/Interpolation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index c569aa5..f298afb 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -411,14 +411,14 @@ std::vector<LNLib::XYZ> LNLib::Interpolation::ComputeTangent(const std::vector<X
 			tangents[i] = XYZ(0, 0, 0);
 		}
 		else if (MathUtils::IsAlmostEqualTo(w1, 0.0)) {
-			tangents[i] = dP[i] / du[i];
+			tangents[i] = dP[i - 1] / du[i - 1];
 		}
 		else if (MathUtils::IsAlmostEqualTo(w2, 0.0)) {
-			tangents[i] = dP[i - 1] / du[i - 1];
+			tangents[i] = dP[i] / du[i];
 		}
 		else {
 			double a = w2 / (w1 + w2);
-			tangents[i] = a * (dP[i - 1] / du[i - 1]) + (1 - a) * (dP[i] / du[i]);
+			tangents[i] = (1 - a) * (dP[i - 1] / du[i - 1]) + a * (dP[i] / du[i]);
 		}
 	}
 
-- 
2.43.0


From a85b7fbd5f56df898ffe58a85076a53ba8ee3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:23 +0000
Subject: [PATCH 027/106] fix: interpolation with tangents built unusable knots
 for degree two and three

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3fd5138..46ebe79 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2165,8 +2165,11 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 		}
 		for (int i = 0; i < size - 1; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 1 + 2 * i] = (uk[i] + uk[i + 1]) / 2.0;
+			if (i + 2 < size)
+			{
+				knotVector[degree + 2 + 2 * i] = uk[i + 1];
+			}
 		}
 	}
 	else if (degree == 3)
@@ -2176,15 +2179,11 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 			knotVector[i] = 0.0;
 			knotVector[knotVector.size() - 1 - i] = 1.0;
 		}
-		knotVector[4] = uk[1];
-		knotVector[5] = uk[1];
-		for (int i = 1; i < size - 2; ++i)
+		for (int i = 1; i < size - 1; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i + 1];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 2 * i - 1] = uk[i];
+			knotVector[degree + 2 * i] = uk[i];
 		}
-		knotVector[knotVector.size() - 6] = uk[size - 2];
-		knotVector[knotVector.size() - 5] = uk[size - 2];
 	}
 	else
 	{
-- 
2.43.0


From cd6a9a039d8d877018529bb057bcf9b6e2caa732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:23 +0000
Subject: [PATCH 028/106] fix: CubicLocalInterpolation did not pass through the
 interior points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 46ebe79..22b3dfb 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2306,10 +2306,14 @@ bool LNLib::NurbsCurve::CubicLocalInterpolation(const std::vector<XYZ>& throughP
 		knotVector[knotVector.size() - 1 - i] = 1.0;
 	}
 
-	double step = 1.0 / (numCtrlPts - degree);
-	for (int i = 1; i <= numCtrlPts - degree - 1; ++i)
+	double accumulated = 0.0;
+	for (int i = 1; i < size - 1; ++i)
 	{
-		knotVector[degree + i] = i * step;
+		accumulated += chordLengths[i - 1];
+		for (int j = 0; j < degree; ++j)
+		{
+			knotVector[degree * i + 1 + j] = accumulated / totalLength;
+		}
 	}
 
 	curve.Degree = degree;
-- 
2.43.0


From 26d36ab8fc2dbec2f0f6ac88da31d8bcd2fa2e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 029/106] fix: single basis functions and derivatives dropped
 every contribution below 1e-6

---
 src/LNLib/Algorithm/Polynomials.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index b9fc014..b9dfb2b 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -429,7 +429,7 @@ double LNLib::Polynomials::OneBasisFunction(int spanIndex, int degree, const std
 	for (int k = 1; k <= degree; k++)
 	{
 		double saved = 0.0;
-		if (!MathUtils::IsAlmostEqualTo(N[0], 0.0))
+		if (N[0] != 0.0)
 		{
 			saved = ((paramT - knotVector[spanIndex]) * N[0]) / (knotVector[spanIndex + k] - knotVector[spanIndex]);
 		}
@@ -438,7 +438,7 @@ double LNLib::Polynomials::OneBasisFunction(int spanIndex, int degree, const std
 		{
 			double knotLeft = knotVector[spanIndex + j + 1];
 			double knotRight = knotVector[spanIndex + j + k + 1];
-			if (MathUtils::IsAlmostEqualTo(N[j + 1], 0.0))
+			if (N[j + 1] == 0.0)
 			{
 				N[j] = saved;
 				saved = 0.0;
@@ -484,7 +484,7 @@ std::vector<double> LNLib::Polynomials::OneBasisFunctionDerivative(int spanIndex
 	for (int k = 1; k <= degree; k++)
 	{
 		double saved = 0.0;
-		if (!MathUtils::IsAlmostEqualTo(N[0][k - 1], 0.0))
+		if (N[0][k - 1] != 0.0)
 		{
 			saved = ((paramT - knotVector[spanIndex]) * N[0][k - 1]) / (knotVector[spanIndex + k] - knotVector[spanIndex]);
 		}
@@ -493,7 +493,7 @@ std::vector<double> LNLib::Polynomials::OneBasisFunctionDerivative(int spanIndex
 			double knotLeft = knotVector[spanIndex + j + 1];
 			double knotRight = knotVector[spanIndex + j + k + 1];
 
-			if (MathUtils::IsAlmostEqualTo(N[j + 1][k - 1], 0.0))
+			if (N[j + 1][k - 1] == 0.0)
 			{
 				N[j][k] = saved;
 				saved = 0.0;
@@ -518,14 +518,14 @@ std::vector<double> LNLib::Polynomials::OneBasisFunctionDerivative(int spanIndex
 		}
 		for (int jj = 1; jj <= k; jj++)
 		{
-			double saved = MathUtils::IsAlmostEqualTo(ND[0], 0.0)?
+			double saved = ND[0] == 0.0 ?
 							0.0: ND[0] / (knotVector[spanIndex + degree - k + jj] - knotVector[spanIndex]);
 			for (int j = 0; j < k - jj + 1; j++)
 			{
 				double knotLeft = knotVector[spanIndex + j + 1];
 				double knotRight = knotVector[spanIndex + j + degree - k + jj + 1];
 
-				if (MathUtils::IsAlmostEqualTo(ND[j + 1], 0.0))
+				if (ND[j + 1] == 0.0)
 				{
 					ND[j] = (degree - k + jj) * saved;
 					saved = 0.0;
-- 
2.43.0


From 4861e2960f7852c12b06932e47207e41e1e9b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 030/106] fix: LeastSquaresApproximation indexed an empty
 vector for two control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 22b3dfb..61f87fc 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2343,6 +2343,14 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 		knotVector[degree + j] = (1 - a) * uk[i - 1] + a * uk[i];
 	}
 
+	if (n == 1)
+	{
+		curve.Degree = degree;
+		curve.KnotVector = knotVector;
+		curve.ControlPoints = { XYZW(throughPoints[0], 1), XYZW(throughPoints[m], 1) };
+		return true;
+	}
+
 	std::vector<int> start(n - 1);
 	std::vector<int> end(n - 1);
 	std::vector<int> index(m - 1);
-- 
2.43.0


From ab3890e120a889ddfb839383836c2119eab319f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 031/106] fix: weighted least squares applied the weights twice
 to the data

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 61f87fc..d546eb7 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2555,7 +2555,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 				}
 			}
 			W_vec[mu_idx] = wp;
-			S[mu_idx] = wp * throughPoints[i];
+			S[mu_idx] = throughPoints[i];
 			mu_idx++;
 		}
 		else if (MathUtils::IsLessThan(wp, 0.0)) {
@@ -2587,7 +2587,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 					}
 				}
 				W_vec[mu_idx] = wt;
-				S[mu_idx] = wt * tangentVec;
+				S[mu_idx] = tangentVec;
 				mu_idx++;
 			}
 			else if (MathUtils::IsLessThan(wt, 0.0)) {
-- 
2.43.0


From 67b6b44e6a0b4c02ca2b1f7e787f4df21023c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 032/106] fix: RemoveKnotsByGivenBound returned curves outside
 its error bound and wrong errors

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 205 ++++--------------------
 1 file changed, 28 insertions(+), 177 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d546eb7..b6e06fc 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2734,207 +2734,58 @@ double LNLib::NurbsCurve::ComputerRemoveKnotErrorBound(const LN_NurbsCurve& curv
 void LNLib::NurbsCurve::RemoveKnotsByGivenBound(const LN_NurbsCurve& curve, const std::vector<double> params, std::vector<double>& errors, double maxError, LN_NurbsCurve& result)
 {
 	int degree = curve.Degree;
-	std::vector<double> knotVector = curve.KnotVector;
-	std::vector<XYZW> controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT(params.size() > 0, "params", "Params size must be greater than zero.");
 	VALIDATE_ARGUMENT(params.size() == errors.size(), "errors", "Errors size must be equal to params size.");
 	VALIDATE_ARGUMENT(MathUtils::IsGreaterThan(maxError,0.0), "maxError", "Maxerror must be greater than zero.");
 
-	int knotSize = knotVector.size();
-	std::vector<double> Br(knotSize, Constants::MaxDistance);
-	std::vector<int> S(knotSize, 0);
-	std::vector<int> Nl(knotSize);
-	std::vector<int> Nr(knotSize, params.size() - 1);
-
-	std::vector<double> uk = params;
-	int ukSize = uk.size();
-	std::vector<double> NewError(ukSize);
-	std::vector<double> temp(ukSize);
-
-	int i, BrMinIndex = 0;
-	int r, s, Rstart, Rend, k;
-	double BrMin, u;
-
-	int controlPointsSize = controlPoints.size();
-	int n = controlPointsSize - 1;
-	s = 1;
-	for (int i = degree + 1; i < controlPointsSize; i++)
+	LN_NurbsCurve current = curve;
+	bool removed = true;
+	while (removed)
 	{
-		if (MathUtils::IsLessThan(knotVector[i],knotVector[i + 1]))
-		{
-			Br[i] = ComputerRemoveKnotErrorBound(curve, i);
-			S[i] = Polynomials::GetKnotMultiplicity(knotVector, knotVector[i]);
-			s = 1;
-		}
-		else {
-			Br[i] = Constants::MaxDistance;
-			S[i] = 1;
-			s++;
-		}
-	}
+		removed = false;
 
-	Nl[0] = 0;
-	for (int i = 0; i < ukSize; i++)
-	{
-		int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, uk[i]);
-		if (!Nl[spanIndex])
-		{
-			Nl[spanIndex] = i;
-		}
-		if (i + 1 < ukSize)
+		const std::vector<double>& U = current.KnotVector;
+		std::vector<std::pair<double, int>> bounds;
+		for (int i = degree + 1; i < current.ControlPoints.size(); i++)
 		{
-			Nr[spanIndex] = i + 1;
-		}
-	}
-
-	std::vector<double> tempU = knotVector;
-	std::vector<XYZW> tempCP = controlPoints;
-
-	std::vector<double> updatedKnotVector;
-	std::vector<XYZW> updatedControlPoints;
-
-	while (1)
-	{
-		double minStandard = Constants::MaxDistance;
-		for (int i = 0; i < Br.size(); i++)
-		{
-			if (MathUtils::IsLessThan(Br[i],minStandard))
+			if (MathUtils::IsLessThan(U[i], U[i + 1]))
 			{
-				BrMinIndex = i;
-				minStandard = Br[i];
+				bounds.emplace_back(ComputerRemoveKnotErrorBound(current, i), i);
 			}
 		}
-		BrMin = Br[BrMinIndex];
+		std::sort(bounds.begin(), bounds.end());
 
-		if (BrMin == Constants::MaxDistance)
+		for (int b = 0; b < bounds.size() && !removed; b++)
 		{
-			updatedKnotVector = tempU;
-			updatedControlPoints = tempCP;
-			break;
-		}
-		r = BrMinIndex;
-		s = S[BrMinIndex];
-
-		Rstart = std::max(r - degree, degree + 1);
-		Rend = std::min(r + degree - S[r + degree] + 1, n);
-		Rstart = Nl[Rstart];
-		Rend = Nr[Rend];
-
-		bool removable = true;
-		for (i = Rstart; i <= Rend; i++)
-		{
-			double a;
+			double Br = bounds[b].first;
+			int r = bounds[b].second;
+			int s = Polynomials::GetKnotMultiplicity(U, U[r]);
+			int k = (degree + s + 1) / 2;
+			double a = 1.0;
 			if ((degree + s) % 2)
 			{
-				u = uk[i];
-				k = (degree + s + 1) / 2;
-				a = tempU[r] - tempU[r - k + 1];
-				a /= tempU[r - k + degree + 2] - tempU[r - k + 1];
-				NewError[i] = (1.0 - a) * Br[r] * Polynomials::OneBasisFunction(r - k + 1, degree, tempU, u);
-			}
-			else
-			{
-				u = uk[i];
-				k = (degree + s) / 2;
-				NewError[i] = Br[r] * Polynomials::OneBasisFunction(r - k, degree, tempU, u);
-			}
-			temp[i] = NewError[i] + errors[i];
-			if (MathUtils::IsGreaterThan(temp[i],maxError))
-			{
-				removable = false;
-				Br[r] = Constants::MaxDistance;
-				updatedKnotVector = tempU;
-				updatedControlPoints = tempCP;
-				break;
-			}
-		}
-
-		if (removable)
-		{
-			LN_NurbsCurve tc;
-			tc.Degree = degree;
-			tc.KnotVector = tempU;
-			tc.ControlPoints = tempCP;
-
-			LN_NurbsCurve newtc;
-			RemoveKnot(tc, tempU[r], 1, newtc);
-			std::vector<double> tempNewU = newtc.KnotVector;
-			std::vector<XYZW> tempNewCP = newtc.ControlPoints;
-
-			controlPointsSize = tempNewCP.size();
-			for (int i = Rstart; i <= Rend; i++)
-			{
-				errors[i] = temp[i];
+				a = (U[r] - U[r - k]) / (U[r - k + degree + 1] - U[r - k]);
 			}
 
-			if (controlPointsSize <= degree + 1)
+			bool removable = true;
+			std::vector<double> temp = errors;
+			for (int i = 0; i < params.size() && removable; i++)
 			{
-				updatedKnotVector = tempU;
-				updatedControlPoints = tempCP;
-				break;
-			}
-
-			Rstart = Nl[r - degree - 1];
-			Rend = Nr[r - S[r]];
-			int spanIndex = 0;
-			int oldspanIndex = -1;
-			for (int k = Rstart; k <= Rend; k++)
-			{
-				spanIndex = Polynomials::GetKnotSpanIndex(degree, tempNewU, uk[k]);
-				if (spanIndex != oldspanIndex)
-				{
-					Nl[spanIndex] = k;
-				}
-				if (k + 1 < ukSize)
-				{
-					Nr[spanIndex] = k + 1;
-				}
-				oldspanIndex = spanIndex;
-			}
-			for (int k = r - S[r] + 1; k < Nl.size() - 1; k++) {
-				Nl[k] = Nl[k + 1];
-				Nr[k] = Nr[k + 1];
+				temp[i] += a * Br * Polynomials::OneBasisFunction(r - k, degree, U, params[i]);
+				removable = MathUtils::IsLessThanOrEqual(temp[i], maxError);
 			}
-			Nl.resize(Nl.size() - 1);
-			Nr.resize(Nr.size() - 1);
 
-			Rstart = std::max(r - degree, degree + 1);
-			Rend = std::min(r + degree - S[r] + 1, controlPointsSize);
-			s = S[Rstart];
-			for (i = Rstart; i <= Rend; i++)
-			{
-				if (MathUtils::IsLessThan(tempNewU[i],tempNewU[i + 1]))
-				{
-					Br[i] = ComputerRemoveKnotErrorBound(newtc, i);
-					S[i] = s;
-					s = 1;
-				}
-				else {
-					Br[i] = Constants::MaxDistance;
-					S[i] = 1;
-					s++;
-				}
-			}
-			for (int i = Rend + 1; i < Br.size() - 1; i++)
+			LN_NurbsCurve next;
+			if (removable && RemoveKnotWithTolerance(current, U[r], Constants::MaxDistance, next))
 			{
-				Br[i] = Br[i + 1];
-				S[i] = S[i + 1];
+				errors = temp;
+				current = next;
+				removed = true;
 			}
-			Br.resize(Br.size() - 1);
-
-			tempU = tempNewU;
-			tempCP = tempNewCP;
-		}
-		else
-		{
-			Br[r] = Constants::MaxDistance;
 		}
 	}
-
-	result.Degree = degree;
-	result.KnotVector = updatedKnotVector;
-	result.ControlPoints = updatedControlPoints;
+	result = current;
 }
 
 void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::vector<XYZ>& throughPoints, double maxError, LN_NurbsCurve& result)
-- 
2.43.0


From b36e43e3c95a8b6252b7c095bf62f23144e1f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 033/106] fix: GlobalApproximationByErrorBound threw for degree
 one

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b6e06fc..cfe878f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2819,8 +2819,11 @@ void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::v
 	tc.KnotVector = knotVector;
 	tc.ControlPoints = controlPoints;
 
-	LN_NurbsCurve newtc;
-	ElevateDegree(tc, degree - 1, newtc);
+	LN_NurbsCurve newtc = tc;
+	if (degree > 1)
+	{
+		ElevateDegree(tc, degree - 1, newtc);
+	}
 	RemoveKnotsByGivenBound(newtc, uk, errors, maxError, result);
 }
 
-- 
2.43.0


From 8a474df837f6efea6f3fc12787c23232bea38141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 034/106] fix: FitWithConic fitted the weight of a different
 conic

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index cfe878f..c078c5e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2874,10 +2874,11 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 			return false;	
 		}
 		double wi = 0.0;
-		if (CreateOneConicArc(startPoint, V, R, V1, throughPoints[i], dummy, wi))
+		if (!CreateOneConicArc(startPoint, startTangent, endPoint, endTangent, throughPoints[i], dummy, wi))
 		{
-			s = s + wi / (1 + wi);
+			return false;
 		}
+		s = s + wi / (1 + wi);
 	}
 	
 	s = s / (endPointIndex - startPointIndex - 1);
-- 
2.43.0


From f405369f72c53a667fdbb6894456535e18a39907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 035/106] fix: FitWithCubic fitted with zero tangent lengths
 and accepted cubics outside the error bound

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 63 +++++++++++--------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c078c5e..1d3b942 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2951,7 +2951,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	int dk = endPointIndex - startPointIndex;
 	bool isLine = true;
 	XYZ tempStandard(0, 0, 0);
-	for (int i = startPointIndex; i < dk + 1; i++)
+	for (int i = startPointIndex + 1; i <= endPointIndex; i++)
 	{
 		XYZ tp = throughPoints[i];
 		XYZ direction = (tp - startPoint).Normalize();
@@ -2976,7 +2976,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		middleControlPoints.emplace_back(P2);
 		return true;
 	}
-	std::vector<XYZ> newThroughPoints(endPointIndex - startPointIndex + 1);
+	std::vector<XYZ> newThroughPoints;
 	for (int i = startPointIndex; i <= endPointIndex; i++)
 	{
 		newThroughPoints.emplace_back(throughPoints[i]);
@@ -2998,19 +2998,16 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 
 			XYZ a1 = 3 * pow(s, 2) * t * startTangent;
 			XYZ b1 = 3 * s * pow(t, 2) * endTangent;
-			XYZ c1 = throughPoints[k] - (pow(s, 3) + 3 * pow(s, 2) * t) * startPoint - (pow(t, 3) + 3 * s * pow(t, 2)) * endPoint;
+			XYZ c1 = throughPoints[k + startPointIndex] - (pow(s, 3) + 3 * pow(s, 2) * t) * startPoint - (pow(t, 3) + 3 * s * pow(t, 2)) * endPoint;
 
-			double alk = (uh[k] - uh[k - 1]) / (uh[k + 1] - uh[k - 1]);
-			XYZ dk = (throughPoints[k] - throughPoints[k - 1]) / (uh[k] - uh[k - 1]);
-			XYZ dk1 = (throughPoints[k + 1] - throughPoints[k]) / (uh[k + 1] - uh[k]);
-			XYZ Dk = ((1 - alk) * dk + alk * dk1).Normalize();
-
-			XYZ a2 = s * (s - 2 * t) * (Dk.CrossProduct(startTangent));
-			XYZ b2 = t * (2 * s - t) * (Dk.CrossProduct(endTangent));
-			XYZ c2 = 2 * s * t * (Dk.CrossProduct(startPoint - endPoint));
-
-			ak = (c1 * b2 - c2 * b1) / (a1 * b2 - a2 * b1);
-			bk = (c1 * a2 - c2 * a1) / (b1 * a2 - b2 * a1);
+			XYZ normal = a1.CrossProduct(b1);
+			double denominator = normal.DotProduct(normal);
+			if (denominator == 0.0)
+			{
+				return false;
+			}
+			ak = c1.CrossProduct(b1).DotProduct(normal) / denominator;
+			bk = a1.CrossProduct(c1).DotProduct(normal) / denominator;
 
 			if (MathUtils::IsGreaterThan(ak, 0.0) &&
 				MathUtils::IsLessThan(bk, 0.0))
@@ -3026,18 +3023,19 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		else
 		{
 			XYZ Pd(0, 0, 0);
-			LinePlaneIntersectionType type0 = Intersection::ComputeLineAndPlane(normalPi, startPoint, throughPoints[k + startPointIndex], startTangent, Pd);
-			if (!(type0 == LinePlaneIntersectionType::Intersecting)) continue;
+			LinePlaneIntersectionType type0 = Intersection::ComputeLineAndPlane(normalPi, startPoint, throughPoints[k + startPointIndex], endTangent, Pd);
+			if (!(type0 == LinePlaneIntersectionType::Intersecting)) return false;
 			double param0 = 0.0; double param1 = 0.0;
 			XYZ Pc(0, 0, 0);
 			CurveCurveIntersectionType type1 = Intersection::ComputeRays(startPoint, endPoint - startPoint, Pd, startTangent, param0, param1, Pc);
-			if (!(type1 == CurveCurveIntersectionType::Intersecting)) continue;
+			if (!(type1 == CurveCurveIntersectionType::Intersecting)) return false;
 			double gamma = Pc.Distance(endPoint) / startPoint.Distance(endPoint);
 			if (MathUtils::IsLessThan(gamma, 0.0) || MathUtils::IsGreaterThan(gamma, 1.0))
 			{
 				return false;
 			}
-			uh[k] = MathUtils::ComputerCubicEquationsWithOneVariable(2, -3, 0, 1 - gamma);
+			// The root of 2t^3 - 3t^2 + 1 - gamma = 0 in [0,1].
+			uh[k] = 0.5 - std::sin(std::asin(std::min(1.0, 2.0 * gamma - 1.0)) / 3.0);
 			if (MathUtils::IsLessThan(uh[k], 0.0) || MathUtils::IsGreaterThan(uh[k], 1.0))
 			{
 				return false;
@@ -3064,31 +3062,24 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	beta = beta / (dk - 1);
 	XYZ P1 = throughPoints[startPointIndex] + alpha * startTangent;
 	XYZ P2 = throughPoints[endPointIndex] + beta * endTangent;
-	middleControlPoints.emplace_back(XYZW(P1, 1));
-	middleControlPoints.emplace_back(XYZW(P2, 1));
 	for (int k = 1; k < dk; k++)
 	{
 		double u = uh[k];
-		double deltaAk = alphak[k] - alpha;
-		double deltaBk = betak[k] - beta;
-		double e = (deltaAk * Polynomials::Bernstein(1, 3, u) * startTangent).Distance(deltaBk * Polynomials::Bernstein(2, 3, u) * endTangent);
-		if (MathUtils::IsLessThanOrEqual(e, maxError)) continue;
-		else
-		{
-			std::vector<XYZ> cps = { XYZ(startPoint), XYZ(P1), XYZ(P2),  XYZ(endPoint) };
+		std::vector<XYZ> cps = { XYZ(startPoint), XYZ(P1), XYZ(P2),  XYZ(endPoint) };
 
-			LN_BezierCurve<XYZ> bezierCurve;
-			bezierCurve.Degree = 3;
-			bezierCurve.ControlPoints = cps;
+		LN_BezierCurve<XYZ> bezierCurve;
+		bezierCurve.Degree = 3;
+		bezierCurve.ControlPoints = cps;
 
-			XYZ p = BezierCurve::GetPointOnCurveByBernstein(bezierCurve, u);
-			double ek = throughPoints[startPointIndex + k].Distance(p);
-			if (MathUtils::IsGreaterThan(ek, maxError))
-			{
-				return false;
-			}
+		XYZ p = BezierCurve::GetPointOnCurveByBernstein(bezierCurve, u);
+		double ek = throughPoints[startPointIndex + k].Distance(p);
+		if (MathUtils::IsGreaterThan(ek, maxError))
+		{
+			return false;
 		}
 	}
+	middleControlPoints.emplace_back(XYZW(P1, 1));
+	middleControlPoints.emplace_back(XYZW(P2, 1));
 	return true;
 }
 
-- 
2.43.0


From fda4cb0617cafa880c8f4363f3ca9252962d74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 036/106] fix: closest point iterations walked away from the
 point where the distance is not convex

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 1d3b942..89876aa 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1329,6 +1329,10 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 
 		double f = Ct.DotProduct(diff);
 		double df = Ct.DotProduct(Ct) + diff.DotProduct(Ctt);
+		if (df <= 0.0) {
+			// The Newton step would go away from the closest point.
+			df = Ct.DotProduct(Ct);
+		}
 
 		if (std::abs(df) < Constants::DoubleEpsilon) {
 			break;
@@ -1437,6 +1441,11 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 
 			if (!isClosed) {
 				newT = std::max(minParam, std::min(maxParam, newT));
+				if (newT == paramT && df < 0.0 && f != 0.0) {
+					// The Newton step leaves the domain, away from the closest point.
+					deltaT = f / Ct.DotProduct(Ct);
+					newT = std::max(minParam, std::min(maxParam, paramT - deltaT));
+				}
 			}
 			else {
 				double range = maxParam - minParam;
-- 
2.43.0


From 8e603f6520b43c87582c5ecb2d5cd348810b76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:01 +0000
Subject: [PATCH 037/106] fix: control point and weight modification used the
 basis function of another control point

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 89876aa..c27a932 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -278,6 +278,25 @@ namespace LNLib
 		NurbsCurve::GlobalInterpolation(degree, samplePoints, temp);
 		NurbsCurve::RemoveExcessiveKnots(temp, result);
 	}
+
+	// Rational basis function of one control point at the parameter (zero outside its support).
+	double GetRationalBasisFunction(const LN_NurbsCurve& curve, int index, double parameter)
+	{
+		int degree = curve.Degree;
+		int spanIndex = Polynomials::GetKnotSpanIndex(degree, curve.KnotVector, parameter);
+		if (index < spanIndex - degree || index > spanIndex)
+		{
+			return 0.0;
+		}
+		double basis[Constants::NURBSMaxDegree + 1];
+		Polynomials::BasisFunctions(spanIndex, degree, curve.KnotVector, parameter, basis);
+		double weightSum = 0.0;
+		for (int i = 0; i <= degree; i++)
+		{
+			weightSum += basis[i] * curve.ControlPoints[spanIndex - degree + i].GetW();
+		}
+		return basis[index - spanIndex + degree] * curve.ControlPoints[index].GetW() / weightSum;
+	}
 }
 
 void LNLib::NurbsCurve::Check(const LN_NurbsCurve& curve)
@@ -3103,11 +3122,8 @@ bool LNLib::NurbsCurve::ControlPointReposition(const LN_NurbsCurve& curve, doubl
 	VALIDATE_ARGUMENT(!moveDirection.IsZero(), "moveDirection", "MoveDirection must not be zero vector.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance,0.0), "moveDistance", "MoveDistance must not be zero.")
 
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
-	if (MathUtils::IsLessThan(Rkp, 0.0))
+	double Rkp = GetRationalBasisFunction(curve, moveIndex, parameter);
+	if (MathUtils::IsLessThanOrEqual(Rkp, 0.0))
 	{
 		return false;
 	}
@@ -3136,10 +3152,7 @@ void LNLib::NurbsCurve::WeightModification(const LN_NurbsCurve& curve, double pa
 	XYZ point = GetPointOnCurve(curve, parameter);
 	XYZ movePoint = const_cast<XYZW&>(controlPoints[moveIndex]).ToXYZ(true);
 	double distance =  point.Distance(movePoint);
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
+	double Rkp = GetRationalBasisFunction(curve, moveIndex, parameter);
 	double coefficient = 1 + moveDistance / (Rkp * (distance - moveDistance));
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	updatedControlPoints[moveIndex] = XYZW(movePoint, updatedControlPoints[moveIndex].GetW() * coefficient);
-- 
2.43.0


From ef34bef6c2032717d28e1e5f8ecec0c2a0bcde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:01 +0000
Subject: [PATCH 038/106] fix: NeighborWeightsModification read past the
 control points for the last index

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c27a932..76b6de0 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3169,7 +3169,7 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	const auto& controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT_RANGE(parameter, knotVector[0], knotVector[knotVector.size() - 1]);
-	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 1);
+	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 2);
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance, 0.0), "moveDistance", "MoveDistance must not be zero.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(scale, 0.0), "scale", "Scale must not be zero.");
 
-- 
2.43.0


From 8f270ada8ad0596f478a353533ea8a0266e56988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 039/106] fix: Tessellate cut off point-symmetric curves whose
 middle lies on the chord

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 76b6de0..b685835 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -110,6 +110,13 @@ namespace LNLib
 
 		XYZ chordMid = (p0 + p2) * 0.5;
 		double deviation = p1.Distance(chordMid);
+		if (LNLib::MathUtils::IsAlmostEqualTo(deviation, 0.0)) {
+			// The middle of a point-symmetric curve lies on the chord.
+			XYZ q1 = NurbsCurve::GetPointOnCurve(curve, (start + mid) * 0.5);
+			XYZ q3 = NurbsCurve::GetPointOnCurve(curve, (mid + end) * 0.5);
+			deviation = std::max(deviation, q1.Distance((p0 + p1) * 0.5));
+			deviation = std::max(deviation, q3.Distance((p1 + p2) * 0.5));
+		}
 
 		if (LNLib::MathUtils::IsAlmostEqualTo(deviation,0.0)) {
 			parameters.emplace_back(mid);
-- 
2.43.0


From b2c80a307c4e7acae3e20139b16055170234a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:02 +0000
Subject: [PATCH 040/106] fix: Extend merged an empty arc when the end of the
 curve is nearly straight

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b685835..75005d6 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3882,7 +3882,7 @@ void LNLib::NurbsCurve::Extend(const LN_NurbsCurve& curve, double delta, bool is
 				endRad = atan2(y, x);
 			}
 
-			CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend);
+			if (!CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend)) return;
 			isFromStart ? Merge(extend, curve, result) : Merge(curve, extend, result);
 			break;
 		}
-- 
2.43.0


From d1bb33c472a80048514a674ddca576121725ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 041/106] fix: CreateArc failed for small or flat arcs whose
 end tangents are nearly parallel

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 75005d6..c0b48c9 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1901,10 +1901,8 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 		controlPoints[index + 2] = XYZW(P2, 1);
 		XYZ T2 = -xRadius * sin(angle) * nX + yRadius * cos(angle) * nY;
 
-		double param0, param2 = 0.0;
-		XYZ P1;
-		CurveCurveIntersectionType type = Intersection::ComputeRays(P0, T0, P2, T2, param0, param2, P1);
-		if (type != CurveCurveIntersectionType::Intersecting) return false;
+		// The end tangents meet at this point of the start tangent, however small or flat the arc is.
+		XYZ P1 = P0 + tan(dtheta / 2.0) * T0;
 		controlPoints[index + 1] = XYZW(P1, w1);
 		index = index + 2;
 		if (i < narcs)
-- 
2.43.0


From 96268c2c6021efaf7bb80fa439eb87c50dc1a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:35 +0000
Subject: [PATCH 042/106] fix: surface derivatives of an order above a degree
 threw instead of being zero

---
 src/LNLib/include/BsplineSurface.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 4c669da..e4d0aed 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -105,14 +105,14 @@ namespace LNLib
 
 			std::vector<std::vector<T>> derivatives(derivative + 1, std::vector<T>(derivative + 1));
 
+			int du = std::min(derivative, degreeU);
+			int dv = std::min(derivative, degreeV);
+
 			int uSpanIndex = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, uv.GetU());
-			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, derivative, knotVectorU, uv.GetU());
+			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, du, knotVectorU, uv.GetU());
 
 			int vSpanIndex = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, uv.GetV());
-			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, derivative, knotVectorV, uv.GetV());
-
-			int du = std::min(derivative, degreeU);
-			int dv = std::min(derivative, degreeV);
+			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, dv, knotVectorV, uv.GetV());
 
 			std::vector<T> temp(degreeV + 1);
 
-- 
2.43.0


From 97031bcd0fdbe3c3c6862d3d82fd8ea16cde25b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:48 +0000
Subject: [PATCH 043/106] fix: control points of surface derivatives used the
 wrong knots and skipped the last ones

---
 src/LNLib/include/BsplineSurface.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index e4d0aed..e2e055c 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -239,12 +239,13 @@ namespace LNLib
 					}
 				}
 			}
-			std::vector<double> tempKv(knotVectorV.size(), minSpanIndexV);
-			for (int k = 0; k < du; k++)
+			std::vector<double> tempKv(knotVectorV.begin() + minSpanIndexV, knotVectorV.end());
+			for (int k = 0; k <= du; k++)
 			{
 				for (int i = 0; i <= rangeU - k; i++)
 				{
 					int dd = std::min(derivative - k, dv);
+					if (dd == 0) continue;
 
 					LN_BsplineCurve<T> bsplineCurve;
 					bsplineCurve.Degree = degreeV;
@@ -254,7 +255,7 @@ namespace LNLib
 					std::vector<std::vector<T>> temp = BsplineCurve::ComputeControlPointsOfDerivatives(bsplineCurve, dd, 0, rangeV);
 					for (int l = 1; l <= dd; l++)
 					{
-						for (int j = 0; j < rangeV - l; j++)
+						for (int j = 0; j <= rangeV - l; j++)
 						{
 							PKL[k][l][i][j] = temp[l][j];
 						}
-- 
2.43.0


From a154ac95888b41f1d3c1e51c67822374c799e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:06 +0000
Subject: [PATCH 044/106] fix: first order surface derivatives added to what
 the output array held

---
 src/LNLib/include/BsplineSurface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index e2e055c..ea429d1 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -180,6 +180,7 @@ namespace LNLib
 				int dd = std::min(1, dv);
 				for (int l = 0; l <= dd; l++)
 				{
+					derivatives[k][l] = T();
 					for (int s = 0; s <= degreeV; s++)
 					{
 						derivatives[k][l] += Nv[l][s] * temp[s];
-- 
2.43.0


From a30406005dbf17a7c9f605b58ed11cddd29328cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:17 +0000
Subject: [PATCH 045/106] fix: surface InsertKnot changed the surface near a
 knot and wrote out of range at the ends

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 7834918..9346d93 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -564,10 +564,24 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 
 	int degree = isUDirection ? surface.DegreeU : surface.DegreeV;
 	std::vector<double> knotVector = isUDirection ? surface.KnotVectorU : surface.KnotVectorV;
+	for (double knot : knotVector)
+	{
+		if (MathUtils::IsAlmostEqualTo(knot, insertKnot))
+		{
+			insertKnot = knot;
+			break;
+		}
+	}
+
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
+	// The span search stops before the end of the domain, insertion needs the last occurrence of the knot.
+	while (knotSpanIndex + 2 < knotVector.size() && knotVector[knotSpanIndex + 1] <= insertKnot)
+	{
+		knotSpanIndex++;
+	}
 
-	if (multiplicity == degree)
+	if (multiplicity >= degree)
 	{
 		result = surface;
 		return;
-- 
2.43.0


From 947bcf7418f6ac3b8aa558bff145e2755e1fb23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 046/106] fix: GetBoundingBox of a surface read knots out of
 range and always included the origin

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9346d93..f6288a7 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -349,12 +349,13 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 	}
 
 	LN_BoundingBox3d box1;
+	box1.MinPoint = box1.MaxPoint = GetPointOnSurface(surface, UV(surface.KnotVectorU[0], surface.KnotVectorV[0]));
 	for (int i = 0; i < surface.KnotVectorU.size() - 1; i++)
 	{
 		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
 		{
 			double u = surface.KnotVectorU[i];
-			double v = surface.KnotVectorV[i];
+			double v = surface.KnotVectorV[j];
 
 			XYZ pt = GetPointOnSurface(surface, UV(u,v));
 			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
-- 
2.43.0


From 74c3fdbbc05001bdb7eee786667b343f7a4d5689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 047/106] fix: surface Swap in place lost one direction

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index f6288a7..0c4eeb5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -464,11 +464,11 @@ void LNLib::NurbsSurface::Swap(const LN_NurbsSurface& surface, LN_NurbsSurface&
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
 	std::vector<std::vector<XYZW>> transposedControlPoints;
-	MathUtils::Transpose(surface.ControlPoints, transposedControlPoints);
-	result.DegreeU = surface.DegreeV;
-	result.DegreeV = surface.DegreeU;
-	result.KnotVectorU = surface.KnotVectorV;
-	result.KnotVectorV = surface.KnotVectorU;
+	MathUtils::Transpose(controlPoints, transposedControlPoints);
+	result.DegreeU = degreeV;
+	result.DegreeV = degreeU;
+	result.KnotVectorU = knotVectorV;
+	result.KnotVectorV = knotVectorU;
 	result.ControlPoints = transposedControlPoints;
 }
 
-- 
2.43.0


From 324ff1597c394a3a0a0d78530313d5c35ec10080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:24 +0000
Subject: [PATCH 048/106] fix: surface Reverse returned invalid surfaces for
 one direction and did not reverse v for both

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 0c4eeb5..a76d208 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -482,6 +482,8 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
+	result.KnotVectorU = knotVectorU;
+	result.KnotVectorV = knotVectorV;
 
 	if (direction == SurfaceDirection::All || direction == SurfaceDirection::UDirection)
 	{
@@ -534,12 +536,16 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 		for (int i = 0; i < size; i++)
 		{
 			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
-			newControlPoints.emplace_back(controlPoints[i]);
+			newControlPoints[i] = controlPoints[i];
 		}
 		result.ControlPoints = newControlPoints;
 	}
 	else
 	{
+		for (int i = 0; i < controlPoints.size(); i++)
+		{
+			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
+		}
 		std::reverse(controlPoints.begin(), controlPoints.end());
 		result.ControlPoints = controlPoints;
 	}
-- 
2.43.0


From fe570a51496d4c1b31b87d21b82939ffca6a818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:38 +0000
Subject: [PATCH 049/106] fix: surface Reparametrize did nothing when one
 direction already had the requested domain

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index a76d208..4570864 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1670,7 +1670,7 @@ void LNLib::NurbsSurface::Reparametrize(const LN_NurbsSurface& surface, double m
 	std::vector<double> knotVectorU = surface.KnotVectorU;
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 
-	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) ||
+	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) &&
 		(MathUtils::IsAlmostEqualTo(minV, knotVectorV[0]) && MathUtils::IsAlmostEqualTo(maxV, knotVectorV[knotVectorV.size() - 1])))
 	{
 		result = surface;
-- 
2.43.0


From 3d9450b116e299db936dde4c48c06eec657a9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:50 +0000
Subject: [PATCH 050/106] fix: surface point inversion returned parameters
 outside the domain, points that are not closest, and missed boundary points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 269 +++++++++-----------
 1 file changed, 120 insertions(+), 149 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 4570864..4c12cc7 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -85,6 +85,108 @@ namespace LNLib
 		}
 		return ind;
 	}
+
+	double KeepInRange(double value, double minimum, double maximum, bool isClosed)
+	{
+		double range = maximum - minimum;
+		if (isClosed && (value < minimum || value > maximum))
+		{
+			value = minimum + std::fmod(value - minimum, range);
+			if (value < minimum) value += range;
+		}
+		return std::max(minimum, std::min(maximum, value));
+	}
+
+	/// Newton iteration from start to the closest point, the parameter stays in the surface domain.
+	UV FindClosestParam(const LN_NurbsSurface& surface, const XYZ& givenPoint, const UV& start, bool isClosedU, bool isClosedV)
+	{
+		double minU = surface.KnotVectorU.front();
+		double maxU = surface.KnotVectorU.back();
+		double minV = surface.KnotVectorV.front();
+		double maxV = surface.KnotVectorV.back();
+
+		UV param = start;
+		UV closestParam = start;
+		double closestDist = std::numeric_limits<double>::max();
+		int maxIterations = 50;
+
+		for (int iter = 0; iter < maxIterations; ++iter)
+		{
+			std::vector<std::vector<XYZ>> derivatives = NurbsSurface::ComputeRationalSurfaceDerivatives(surface, 2, param);
+
+			XYZ S = derivatives[0][0];
+			XYZ Su = derivatives[1][0];
+			XYZ Sv = derivatives[0][1];
+			XYZ Suu = derivatives[2][0];
+			XYZ Svv = derivatives[0][2];
+			XYZ Suv = derivatives[1][1];
+
+			XYZ diff = S - givenPoint;
+			double currentDist = diff.Length();
+
+			if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
+				return param;
+			}
+			if (currentDist < closestDist) {
+				closestDist = currentDist;
+				closestParam = param;
+			}
+			else if (!isClosedU && !isClosedV) {
+				// The step was too long.
+				param = (param + closestParam) * 0.5;
+				continue;
+			}
+
+			double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
+			double J01 = Su.DotProduct(Sv) + diff.DotProduct(Suv);
+			double J11 = Sv.DotProduct(Sv) + diff.DotProduct(Svv);
+			if (J00 <= 0.0 || J11 <= 0.0 || J00 * J11 - J01 * J01 <= 0.0) {
+				// The Newton step would go away from the closest point.
+				J00 = Su.DotProduct(Su);
+				J01 = Su.DotProduct(Sv);
+				J11 = Sv.DotProduct(Sv);
+			}
+
+			double K0 = Su.DotProduct(diff);
+			double K1 = Sv.DotProduct(diff);
+
+			double determinant = J00 * J11 - J01 * J01;
+			if (MathUtils::IsAlmostEqualTo(std::abs(determinant), 0.0)) {
+				break;
+			}
+			double deltaU = (J01 * K1 - J11 * K0) / determinant;
+			double deltaV = (J01 * K0 - J00 * K1) / determinant;
+
+			double newU = KeepInRange(param.GetU() + deltaU, minU, maxU, isClosedU);
+			double newV = KeepInRange(param.GetV() + deltaV, minV, maxV, isClosedV);
+			bool isOutU = !isClosedU && newU != param.GetU() + deltaU;
+			bool isOutV = !isClosedV && newV != param.GetV() + deltaV;
+			if (isOutU || isOutV) {
+				// The step ends at a boundary: look for the closest point along it.
+				double boundaryU = isOutU ? newU - param.GetU() : 0.0;
+				double boundaryV = isOutV ? newV - param.GetV() : 0.0;
+				double alongV = KeepInRange(param.GetV() - (K1 + J01 * boundaryU) / J11, minV, maxV, isClosedV) - param.GetV();
+				double alongU = KeepInRange(param.GetU() - (K0 + J01 * boundaryV) / J00, minU, maxU, isClosedU) - param.GetU();
+				double changeU = K0 * boundaryU + K1 * alongV + 0.5 * (J00 * boundaryU * boundaryU + J11 * alongV * alongV) + J01 * boundaryU * alongV;
+				double changeV = K0 * alongU + K1 * boundaryV + 0.5 * (J00 * alongU * alongU + J11 * boundaryV * boundaryV) + J01 * alongU * boundaryV;
+				bool isUBoundary = isOutU && (!isOutV || changeU < changeV);
+				deltaU = isUBoundary ? boundaryU : alongU;
+				deltaV = isUBoundary ? alongV : boundaryV;
+				newU = param.GetU() + deltaU;
+				newV = param.GetV() + deltaV;
+			}
+			param = UV(KeepInRange(newU, minU, maxU, isClosedU), KeepInRange(newV, minV, maxV, isClosedV));
+
+			XYZ deltaWorld = Su * deltaU + Sv * deltaV;
+			if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
+				break;
+			}
+		}
+
+		// The iteration may have left the neighbourhood of the closest point.
+		double lastDist = (NurbsSurface::GetPointOnSurface(surface, param) - givenPoint).Length();
+		return lastDist <= closestDist ? param : closestParam;
+	}
 }
 
 void  LNLib::NurbsSurface::Check(const LN_NurbsSurface& surface)
@@ -1323,8 +1425,13 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		const UV& UV1 = correspondingKnots[i + 1];
 
 		XYZ seg = P1 - P0;
+		if (UV0.GetU() != UV1.GetU())
+		{
+			// The end of one row and the start of the next one are not neighbours.
+			seg = XYZ(0, 0, 0);
+		}
 		double segLenSq = seg.DotProduct(seg);
-		double t = 0.5;
+		double t = 0.0;
 
 		if (MathUtils::IsGreaterThan(segLenSq, 0.0))
 		{
@@ -1343,77 +1450,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		}
 	}
 
-	UV param = bestParam;
-	int maxIterations = 20;
-
-	for (int iter = 0; iter < maxIterations; ++iter)
-	{
-		
-		std::vector<std::vector<XYZ>> derivatives = ComputeRationalSurfaceDerivatives(surface, 2, param);
-
-		XYZ S = derivatives[0][0]; 
-		XYZ Su = derivatives[1][0];
-		XYZ Sv = derivatives[0][1];
-		XYZ Suu = derivatives[2][0];
-		XYZ Svv = derivatives[0][2];
-		XYZ Suv = derivatives[1][1];
-
-		XYZ diff = S - givenPoint;
-		double currentDist = diff.Length();
-
-		if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
-			return param;
-		}
-
-		
-		double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
-		double J01 = Su.DotProduct(Sv) + diff.DotProduct(Suv);
-		double J10 = J01;
-		double J11 = Sv.DotProduct(Sv) + diff.DotProduct(Svv);
-
-		double K0 = Su.DotProduct(diff);
-		double K1 = Sv.DotProduct(diff);
-
-		double determinant = J00 * J11 - J01 * J10;
-
-		if (MathUtils::IsAlmostEqualTo(std::abs(determinant), 0.0)) {
-			break;
-		}
-
-		double deltaU = (J10 * K1 - J11 * K0) / determinant;
-		double deltaV = (J01 * K0 - J00 * K1) / determinant;
-
-		double newU = param.GetU() + deltaU;
-		double newV = param.GetV() + deltaV;
-
-		XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-			param = UV(newU, newV);
-			break;
-		}
-
-		if (isClosedU) {
-			double rangeU = maxU - minU;
-			while (newU < minU) newU += rangeU;
-			while (newU > maxU) newU -= rangeU;
-		}
-		if (isClosedV) {
-			double rangeV = maxV - minV;
-			while (newV < minV) newV += rangeV;
-			while (newV > maxV) newV -= rangeV;
-		}
-
-		if (!isClosedU) {
-			newU = std::max(minU, std::min(maxU, newU));
-		}
-		if (!isClosedV) {
-			newV = std::max(minV, std::min(maxV, newV));
-		}
-
-		param = UV(newU, newV);
-	}
-
-	return param;
+	return FindClosestParam(surface, givenPoint, bestParam, isClosedU, isClosedV);
 }
 
 std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_NurbsSurface& surface, const XYZ& givenPoint)
@@ -1456,20 +1493,20 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 
 	std::vector<UV> initialGuesses;
 
-	for (int i = 1; i < numU - 1; ++i)
+	for (int i = 0; i < numU; ++i)
 	{
-		for (int j = 1; j < numV - 1; ++j)
+		for (int j = 0; j < numV; ++j)
 		{
 			int idx = i * numV + j;
-			int idxUp = (i - 1) * numV + j;
-			int idxDown = (i + 1) * numV + j;
-			int idxLeft = i * numV + (j - 1);
-			int idxRight = i * numV + (j + 1);
+			int idxUp = i > 0 ? (i - 1) * numV + j : idx;
+			int idxDown = i < numU - 1 ? (i + 1) * numV + j : idx;
+			int idxLeft = j > 0 ? i * numV + (j - 1) : idx;
+			int idxRight = j < numV - 1 ? i * numV + (j + 1) : idx;
 
-			if (MathUtils::IsLessThan(distSq[idx],distSq[idxUp]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxDown]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxLeft]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxRight]))
+			if (distSq[idx] <= distSq[idxUp] &&
+				distSq[idx] <= distSq[idxDown] &&
+				distSq[idx] <= distSq[idxLeft] &&
+				distSq[idx] <= distSq[idxRight])
 			{
 				initialGuesses.push_back(correspondingKnots[idx]);
 			}
@@ -1481,76 +1518,10 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 	}
 
 	std::vector<UV> result;
-	int maxIterations = 20;
 
 	for (const UV& guess : initialGuesses)
 	{
-		UV param = guess;
-
-		for (int iter = 0; iter < maxIterations; ++iter)
-		{
-			std::vector<std::vector<XYZ>> derivatives = ComputeRationalSurfaceDerivatives(surface, 2, param);
-
-			XYZ S = derivatives[0][0];
-			XYZ Su = derivatives[1][0];
-			XYZ Sv = derivatives[0][1];
-			XYZ Suu = derivatives[2][0];
-			XYZ Svv = derivatives[0][2];
-			XYZ Suv = derivatives[1][1];
-
-			XYZ diff = S - givenPoint;
-			double currentDist = diff.Length();
-
-			if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
-				break;
-			}
-
-			double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
-			double J01 = Su.DotProduct(Sv) + diff.DotProduct(Suv);
-			double J10 = J01;
-			double J11 = Sv.DotProduct(Sv) + diff.DotProduct(Svv);
-
-			double K0 = Su.DotProduct(diff);
-			double K1 = Sv.DotProduct(diff);
-
-			double determinant = J00 * J11 - J01 * J10;
-
-			if (MathUtils::IsAlmostEqualTo(std::abs(determinant), 0.0)) {
-				break;
-			}
-
-			double deltaU = (J10 * K1 - J11 * K0) / determinant;
-			double deltaV = (J01 * K0 - J00 * K1) / determinant;
-
-			double newU = param.GetU() + deltaU;
-			double newV = param.GetV() + deltaV;
-
-			XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-			if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-				param = UV(newU, newV);
-				break;
-			}
-
-			if (isClosedU) {
-				double rangeU = maxU - minU;
-				while (MathUtils::IsLessThan(newU, minU)) newU += rangeU;
-				while (MathUtils::IsGreaterThan(newU, maxU)) newU -= rangeU;
-			}
-			else {
-				newU = std::max(minU, std::min(maxU, newU));
-			}
-
-			if (isClosedV) {
-				double rangeV = maxV - minV;
-				while (newV < minV) newV += rangeV;
-				while (newV > maxV) newV -= rangeV;
-			}
-			else {
-				newV = std::max(minV, std::min(maxV, newV));
-			}
-
-			param = UV(newU, newV);
-		}
+		UV param = FindClosestParam(surface, givenPoint, guess, isClosedU, isClosedV);
 
 		bool isDuplicate = false;
 		for (const UV& existingUV : result)
-- 
2.43.0


From 6478b7d9ef1035cff343233ba721c841149fc64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:50 +0000
Subject: [PATCH 051/106] fix: area of surfaces with collapsed regions was NaN
 or never returned

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 4c12cc7..810adc5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -59,7 +59,7 @@ namespace LNLib
 			double E = Su.DotProduct(Su);
 			double F = Su.DotProduct(Sv);
 			double G = Sv.DotProduct(Sv);
-			double ds = std::sqrt(E * G - F * F);
+			double ds = std::sqrt(std::max(0.0, E * G - F * F));
 			return ds;
 		}
 	};
@@ -3425,7 +3425,7 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 					double E = Su.DotProduct(Su);
 					double F = Su.DotProduct(Sv);
 					double G = Sv.DotProduct(Sv);
-					double ds = std::sqrt(E * G - F * F);
+					double ds = std::sqrt(std::max(0.0, E * G - F * F));
 					return ds;
 				}
 			}function;
@@ -3528,7 +3528,7 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 						double E = Su.DotProduct(Su);
 						double F = Su.DotProduct(Sv);
 						double G = Sv.DotProduct(Sv);
-						double ds = std::sqrt(E * G - F * F);
+						double ds = std::sqrt(std::max(0.0, E * G - F * F));
 						bArea += Integrator::GaussLegendreWeights[i] * Integrator::GaussLegendreWeights[j] * ds;
 					}
 				}
-- 
2.43.0


From 91046f2e0ca92f4cbb4b325ba56e2d451e633c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:50 +0000
Subject: [PATCH 052/106] fix: merging knot vectors treated knots that differ
 by rounding as different and wrote out of range

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 33 +++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 9d8c456..d88a941 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -143,6 +143,29 @@ std::map<double, int> LNLib::KnotVectorUtils::GetInternalKnotMultiplicityMap(con
 	return result;
 }
 
+namespace LNLib
+{
+	// Knots of different vectors are the same up to rounding.
+	static std::map<double, int>::iterator FindKnot(std::map<double, int>& map, double knot)
+	{
+		auto next = map.lower_bound(knot);
+		auto found = map.end();
+		if (next != map.end() && MathUtils::IsAlmostEqualTo(next->first, knot))
+		{
+			found = next;
+		}
+		if (next != map.begin())
+		{
+			auto before = std::prev(next);
+			if (MathUtils::IsAlmostEqualTo(before->first, knot) && (found == map.end() || knot - before->first < found->first - knot))
+			{
+				found = before;
+			}
+		}
+		return found;
+	}
+}
+
 void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& knotVector0, const std::vector<double>& knotVector1, std::vector<double>& insertElements0, std::vector<double>& insertElements1)
 {
 	std::map<double, int> map0 = GetKnotMultiplicityMap(knotVector0);
@@ -153,7 +176,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key0 = it->first;
 		int count0 = it->second;
 
-		auto got = map1.find(key0);
+		auto got = FindKnot(map1, key0);
 		if (got == map1.end())
 		{
 			for (int i = 0; i < count0; i++)
@@ -188,7 +211,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key1 = it->first;
 		int count1 = it->second;
 
-		auto got = map0.find(key1);
+		auto got = FindKnot(map0, key1);
 		if (got == map0.end())
 		{
 			for (int i = 0; i < count1; i++)
@@ -213,7 +236,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 		{
 			double key = it->first;
 			int count = it->second;
-			auto got = finalMap.find(key);
+			auto got = FindKnot(finalMap, key);
 			if (got == finalMap.end())
 			{
 				finalMap.insert({ key, count });
@@ -223,7 +246,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int currentCount = got->second;
 				if (currentCount < count)
 				{
-					finalMap[key] = count;
+					got->second = count;
 				}
 			}
 		}
@@ -241,7 +264,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 			double key = it->first;
 			int count = it->second;
 
-			auto got = map.find(key);
+			auto got = FindKnot(map, key);
 			if (got == map.end())
 			{
 				for (int j = 0; j < count; j++)
-- 
2.43.0


From 3f321cd7a3631563c56f6bb700a48b7a8dbe89c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:50 +0000
Subject: [PATCH 053/106] fix: CreateRevolvedSurface needed a unit axis and
 failed for control points next to the axis

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 810adc5..fd5487d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1918,8 +1918,8 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 		XYZ O = Projection::PointToRay(origin, axis, p);
 		X = p - O;
 
-		r = X.Normalize().Length();
-		Y = axis.CrossProduct(X);
+		r = X.Length();
+		Y = const_cast<XYZ&>(axis).Normalize().CrossProduct(X);
 
 		if (MathUtils::IsGreaterThan(r, 0.0))
 		{
@@ -1946,14 +1946,8 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 			}
 			else
 			{
-				XYZ intersectPoint;
-				double param0;
-				double param1;
-				CurveCurveIntersectionType type = Intersection::ComputeRays(P0, T0, P2, T2, param0, param1, intersectPoint);
-				if (type != CurveCurveIntersectionType::Intersecting)
-				{
-					return false;
-				}
+				// The end tangents meet at this point of the start tangent, however small the arc is.
+				XYZ intersectPoint = P0 + r * tan(dtheta / 2.0) * T0;
 				controlPoints[index + 1][j] = XYZW(intersectPoint, wm * gp[3]);
 			}
 
-- 
2.43.0


From 75a894b4c10e3dd9d8298c1644ab154c2091dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:50 +0000
Subject: [PATCH 054/106] fix: NonUniformScaling of rational control points
 lost the weights

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index fd5487d..6566b49 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1986,7 +1986,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double y = current.GetWY() / weight;
 				double z = current.GetWZ() / weight;
 
-				row.emplace_back(XYZW(x * xFactor, y * yFactor, z * zFactor, weight));
+				row.emplace_back(XYZW(XYZ(x * xFactor, y * yFactor, z * zFactor), weight));
 			}
 			result.emplace_back(row);
 		}
@@ -2008,7 +2008,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double newY = y * yFactor + (1 - yFactor) * referencePoint[1];
 				double newZ = z * zFactor + (1 - zFactor) * referencePoint[2];
 
-				row.emplace_back(XYZW(newX, newY, newZ, weight));
+				row.emplace_back(XYZW(XYZ(newX, newY, newZ), weight));
 			}
 			result.emplace_back(row);
 		}
-- 
2.43.0


From 0e312b2041c23e811e232f46132a24c6ed4c478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 055/106] fix: surface GlobalInterpolation mixed up the two
 directions and did not pass through the points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 6566b49..1f66009 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2152,8 +2152,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	int rows = static_cast<int>(throughPoints.size());
 	int cols = static_cast<int>(throughPoints[0].size());
 
-	VALIDATE_ARGUMENT(cols > degreeU, "throughPoints", "Column size must be greater than degreeU.");
-	VALIDATE_ARGUMENT(rows > degreeV, "throughPoints", "Row size must be greater than degreeV.");
+	VALIDATE_ARGUMENT(rows > degreeU, "throughPoints", "Row size must be greater than degreeU.");
+	VALIDATE_ARGUMENT(cols > degreeV, "throughPoints", "Column size must be greater than degreeV.");
 
 	std::vector<double> uk, vl;
 	Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
@@ -2173,8 +2173,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				A[eqIdx][ctrlIdx] = 1.0;
 			}
 			else {
-				double u = uk[j];
-				double v = vl[i];
+				double u = uk[i];
+				double v = vl[j];
 
 				int spanU = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, u);
 				int spanV = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, v);
@@ -2185,16 +2185,16 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				Polynomials::BasisFunctions(spanU, degreeU, knotVectorU, u, basisU);
 				Polynomials::BasisFunctions(spanV, degreeV, knotVectorV, v, basisV);
 
-				for (int l = 0; l <= degreeV; ++l) {
-					int ctrlRow = spanV - degreeV + l;
+				for (int k = 0; k <= degreeU; ++k) {
+					int ctrlRow = spanU - degreeU + k;
 					if (ctrlRow < 0 || ctrlRow >= rows) continue;
 
-					for (int k = 0; k <= degreeU; ++k) {
-						int ctrlCol = spanU - degreeU + k;
+					for (int l = 0; l <= degreeV; ++l) {
+						int ctrlCol = spanV - degreeV + l;
 						if (ctrlCol < 0 || ctrlCol >= cols) continue;
 
 						int ctrlIdx = ctrlRow * cols + ctrlCol;
-						A[eqIdx][ctrlIdx] = basisV[l] * basisU[k];
+						A[eqIdx][ctrlIdx] = basisU[k] * basisV[l];
 					}
 				}
 			}
-- 
2.43.0


From 4b9fa9c819557beefbdc2ed8c22fd08f3a52b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 056/106] fix: surface GlobalApproximation used the knots of
 the first row and column for all of them and mixed up the directions

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     |  6 ++++--
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 20 ++++++++++++--------
 src/LNLib/include/NurbsCurve.h              |  2 +-
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c0b48c9..af90a49 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2354,15 +2354,17 @@ bool LNLib::NurbsCurve::CubicLocalInterpolation(const std::vector<XYZ>& throughP
 	curve.ControlPoints = controlPoints;
 	return true;
 }
-bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<XYZ>& throughPoints, int controlPointsCount, LN_NurbsCurve& curve)
+bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<XYZ>& throughPoints, int controlPointsCount, LN_NurbsCurve& curve, const std::vector<double>& params)
 {
 	VALIDATE_ARGUMENT(degree >= 0 && degree <= Constants::NURBSMaxDegree, "degree", "Degree must be greater than or equal zero and not exceed the maximun degree.");
 	VALIDATE_ARGUMENT(controlPointsCount > 0, "controlPointsCount", "controlPointsCount must be greater than zero.");
 
+	VALIDATE_ARGUMENT(params.empty() || params.size() == throughPoints.size(), "params", "Params size must be equal to throughPoints size.");
+
 	int n = controlPointsCount - 1;
 	int m = throughPoints.size() - 1;
 
-	std::vector<double> uk = Interpolation::GetChordParameterization(throughPoints);
+	std::vector<double> uk = params.empty() ? Interpolation::GetChordParameterization(throughPoints) : params;
 	std::vector<double> knotVector(n + degree + 2, 1.0);
 	double d = (double)(m + 1) / (double)(n - degree + 1);
 	for (int j = 0; j <= degree; j++)
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1f66009..76449fd 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2450,25 +2450,29 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 	VALIDATE_ARGUMENT(throughPoints[0].size() > 0, "throughPoints", "ThroughPoints column size must be greater than zero.");
 	VALIDATE_ARGUMENT(degreeU > 0 && degreeU <= Constants::NURBSMaxDegree, "degreeU", "Invalid degreeU.");
 	VALIDATE_ARGUMENT(degreeV > 0 && degreeV <= Constants::NURBSMaxDegree, "degreeV", "Invalid degreeV.");
-	VALIDATE_ARGUMENT(controlPointsRows > degreeV, "controlPointsRows", "Control points rows must be > degreeV.");
-	VALIDATE_ARGUMENT(controlPointsColumns > degreeU, "controlPointsColumns", "Control points columns must be > degreeU.");
+	VALIDATE_ARGUMENT(controlPointsRows > degreeU, "controlPointsRows", "Control points rows must be > degreeU.");
+	VALIDATE_ARGUMENT(controlPointsColumns > degreeV, "controlPointsColumns", "Control points columns must be > degreeV.");
 
 	int dataRows = static_cast<int>(throughPoints.size());
 	int dataCols = static_cast<int>(throughPoints[0].size());
 
+	// All rows and all columns share their parameters, so that they share their knots.
+	std::vector<double> uk, vl;
+	if (!Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl)) return false;
+
 	std::vector<std::vector<XYZ>> tempControlPoints;
-	std::vector<double> knotVectorU;
+	std::vector<double> knotVectorV;
 
 	for (int i = 0; i < dataRows; ++i) {
 		LN_NurbsCurve curve;
-		bool success = NurbsCurve::LeastSquaresApproximation(degreeU, throughPoints[i], controlPointsColumns, curve);
+		bool success = NurbsCurve::LeastSquaresApproximation(degreeV, throughPoints[i], controlPointsColumns, curve, vl);
 		if (!success) return false;
 
 		auto xyzPoints = ControlPointsUtils::ToXYZ(curve.ControlPoints);
 		tempControlPoints.push_back(xyzPoints);
 
 		if (i == 0) {
-			knotVectorU = curve.KnotVector;
+			knotVectorV = curve.KnotVector;
 		}
 	}
 
@@ -2476,18 +2480,18 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 	MathUtils::Transpose(tempControlPoints, transposed);
 
 	std::vector<std::vector<XYZ>> finalControlPoints;
-	std::vector<double> knotVectorV;
+	std::vector<double> knotVectorU;
 
 	for (int j = 0; j < static_cast<int>(transposed.size()); ++j) {
 		LN_NurbsCurve curve;
-		bool success = NurbsCurve::LeastSquaresApproximation(degreeV, transposed[j], controlPointsRows, curve);
+		bool success = NurbsCurve::LeastSquaresApproximation(degreeU, transposed[j], controlPointsRows, curve, uk);
 		if (!success) return false;
 
 		auto xyzPoints = ControlPointsUtils::ToXYZ(curve.ControlPoints);
 		finalControlPoints.push_back(xyzPoints);
 
 		if (j == 0) {
-			knotVectorV = curve.KnotVector;
+			knotVectorU = curve.KnotVector;
 		}
 	}
 
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index f256034..df9957e 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -244,7 +244,7 @@ namespace LNLib
 		/// Referenced from https://github.com/iTwin/imodel-native (Bentley Software): 
 		///		MSBsplineCurve::GeneralLeastSquaresApproximation.
 		/// </summary>
-		static bool LeastSquaresApproximation(int degree, const std::vector<XYZ>& throughPoints, int controlPointsCount, LN_NurbsCurve& curve);
+		static bool LeastSquaresApproximation(int degree, const std::vector<XYZ>& throughPoints, int controlPointsCount, LN_NurbsCurve& curve, const std::vector<double>& params = {});
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page413
-- 
2.43.0


From 2910b68146797fe5ee10707efabc8562be1f0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:47 +0000
Subject: [PATCH 057/106] fix: BicubicLocalInterpolation did not pass through
 the points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 44 +++++++++------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 76449fd..1c2009c 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -75,14 +75,18 @@ namespace LNLib
 		}
 	};
 
+	// Control points of the piecewise cubic which remain when the inner segment ends, where it is C1, are dropped.
 	std::vector<int> GetIndex(int size)
 	{
 		std::vector<int> ind;
-		ind.reserve(size);
-		for (int i = 0; i < size; ++i)
+		ind.reserve(2 * size);
+		ind.push_back(0);
+		for (int i = 0; i < size - 1; ++i)
 		{
-			ind.push_back(3 * i);
+			ind.push_back(3 * i + 1);
+			ind.push_back(3 * i + 2);
 		}
+		ind.push_back(3 * (size - 1));
 		return ind;
 	}
 
@@ -2311,16 +2315,6 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 	}
 	vb[m] = 1.0;
 
-	std::vector<double> rowTotalLen(row);
-	std::vector<double> colTotalLen(column);
-	for (int i = 0; i < row; ++i) {
-		rowTotalLen[i] = Interpolation::GetTotalChordLength(throughPoints[i]);
-	}
-	for (int j = 0; j < column; ++j) {
-		auto col = MathUtils::GetColumn(throughPoints, j);
-		colTotalLen[j] = Interpolation::GetTotalChordLength(col);
-	}
-
 	std::vector<std::vector<XYZ>> bezierControlPoints(3 * row - 2, std::vector<XYZ>(3 * column - 2, XYZ(0, 0, 0)));
 
 	for (int i = 0; i < row; i++)
@@ -2328,7 +2322,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		std::vector<XYZ> T;
 		for (int l = 0; l <= m; l++)
 		{
-			T.emplace_back(td[i][l][1]);
+			T.emplace_back(td[i][l][0]);
 		}
 
 		std::vector<XYZ> temp(3 * column - 2, XYZ(0, 0, 0));
@@ -2338,9 +2332,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int j = 0; j < column - 1; j++)
 		{
-			double a = (ub[j + 1] - ub[j]) * rowTotalLen[i];
+			double a = vb[j + 1] - vb[j];
 			temp[3 * j + 1] = throughPoints[i][j] + a / 3.0 * T[j];
-			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j];
+			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j + 1];
 		}
 		bezierControlPoints[3 * i] = temp;
 	}
@@ -2351,7 +2345,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		std::vector<XYZ> T;
 		for (int k = 0; k <= n; k++)
 		{
-			T.emplace_back(td[k][j][0]);
+			T.emplace_back(td[k][j][1]);
 		}
 
 		std::vector<XYZ> temp(3 * row - 2, XYZ(0, 0, 0));
@@ -2361,9 +2355,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int i = 0; i < row - 1; i++)
 		{
-			double a = (vb[i + 1] - vb[i]) * colTotalLen[j];
+			double a = ub[i + 1] - ub[i];
 			temp[3 * i + 1] = columnData[i] + a / 3.0 * T[i];
-			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i];
+			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i + 1];
 		}
 		for (int i = 0; i < static_cast<int>(temp.size()); i++)
 		{
@@ -2378,8 +2372,8 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		{
 			double bl = (vb[l] - vb[l - 1]) / ((vb[l] - vb[l - 1]) + (vb[l + 1] - vb[l]));
 
-			XYZ dvukl = (1 - ak) * (td[k][l][1] - td[k - 1][l][1]) / (ub[k] - ub[k - 1]) + ak * (td[k + 1][l][1] - td[k][l][1]) / (ub[k + 1] - ub[k]);
-			XYZ duvkl = (1 - bl) * (td[k][l][0] - td[k][l - 1][0]) / (vb[l] - vb[l - 1]) + bl * (td[k][l + 1][0] - td[k][l][0]) / (vb[l + 1] - vb[l]);
+			XYZ dvukl = (1 - ak) * (td[k][l][0] - td[k - 1][l][0]) / (ub[k] - ub[k - 1]) + ak * (td[k + 1][l][0] - td[k][l][0]) / (ub[k + 1] - ub[k]);
+			XYZ duvkl = (1 - bl) * (td[k][l][1] - td[k][l - 1][1]) / (vb[l] - vb[l - 1]) + bl * (td[k][l + 1][1] - td[k][l][1]) / (vb[l + 1] - vb[l]);
 
 			td[k][l][2] = (ak * duvkl + bl * dvukl) / (ak + bl);
 		}
@@ -2418,15 +2412,15 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 
 	knotVectorU.resize(nu + degreeU + 1);
 	for (int i = 0; i <= degreeU; ++i) knotVectorU[i] = 0.0;
-	for (int i = 1; i < nu - degreeU; ++i) {
-		knotVectorU[degreeU + i] = ub[i];
+	for (int i = 1; i < n; ++i) {
+		knotVectorU[degreeU + 2 * i - 1] = knotVectorU[degreeU + 2 * i] = ub[i];
 	}
 	for (int i = nu; i < static_cast<int>(knotVectorU.size()); ++i) knotVectorU[i] = 1.0;
 
 	knotVectorV.resize(nv + degreeV + 1);
 	for (int i = 0; i <= degreeV; ++i) knotVectorV[i] = 0.0;
-	for (int i = 1; i < nv - degreeV; ++i) {
-		knotVectorV[degreeV + i] = vb[i];
+	for (int i = 1; i < m; ++i) {
+		knotVectorV[degreeV + 2 * i - 1] = knotVectorV[degreeV + 2 * i] = vb[i];
 	}
 	for (int i = nv; i < static_cast<int>(knotVectorV.size()); ++i) knotVectorV[i] = 1.0;
 
-- 
2.43.0


From 3206a020c140692dee871a7118f46d876cabf40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:47 +0000
Subject: [PATCH 058/106] fix: mesh parameters were added to what the output
 vectors held before

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index f298afb..fe1fc09 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -274,8 +274,8 @@ bool LNLib::Interpolation::GetSurfaceMeshParameterization(const std::vector<std:
 	int m = throughPoints[0].size();
 
 	std::vector<double> cds(std::max(n, m), 0.0);
-	paramsU.resize(n, 0.0);
-	paramsV.resize(m, 0.0);
+	paramsU.assign(n, 0.0);
+	paramsV.assign(m, 0.0);
 
 	int num = m;
 
-- 
2.43.0


From 8945c34ce3a4a8f0ca53d0dc344cfcd42b1050f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 059/106] fix: volume derivatives dropped the first direction
 and refused orders above a degree

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3ed0070..e0b7e31 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -223,13 +223,13 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 	double w = uvw.GetW();
 
 	int uspan = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, u);
-	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, derivative, kvU, u);
+	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, du, kvU, u);
 
 	int vspan = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, v);
-	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, derivative, kvV, v);
+	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, dv, kvV, v);
 
 	int wspan = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, w);
-	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, derivative, kvW, w);
+	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, dw, kvW, w);
 
 	for (int a = 0; a <= du; ++a)
 	{
@@ -249,7 +249,7 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 				}
 				for (int y = 0; y <= degreeV; ++y)
 				{
-					temp2[z] += Nv[b][y] * temp2[y];
+					temp2[z] += Nv[b][y] * temp1[y];
 				}
 			}
 			int ddc = std::min(derivative - a - b, dw);
-- 
2.43.0


From 035ff88e26635ea5d8537afd42dbcfbfe2dcdb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 060/106] fix: volume InsertKnot returned points without knots
 when the knot is full

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index e0b7e31..53d6159 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -392,7 +392,11 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 				curve.ControlPoints = uControlPoints;
 
 				LNLib::LN_NurbsCurve resultCurve;
-				LNLib::NurbsCurve::InsertKnot(curve, insertKnot, times, resultCurve);
+				if (LNLib::NurbsCurve::InsertKnot(curve, insertKnot, times, resultCurve) == 0)
+				{
+					result = volume;
+					return;
+				}
 
 				newKvU = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
@@ -404,6 +408,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		newControlPoints.resize(newKvU.size() - degreeU - 1);
 		result.KnotVectorU = newKvU;
 		result.ControlPoints = newControlPoints;
 	}
@@ -429,7 +434,11 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 				curve.ControlPoints = vControlPoints;
 
 				LNLib::LN_NurbsCurve resultCurve;
-				LNLib::NurbsCurve::InsertKnot(curve, insertKnot, times, resultCurve);
+				if (LNLib::NurbsCurve::InsertKnot(curve, insertKnot, times, resultCurve) == 0)
+				{
+					result = volume;
+					return;
+				}
 
 				newKvV = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
@@ -441,6 +450,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		for (auto& row : newControlPoints) row.resize(newKvV.size() - degreeV - 1);
 		result.KnotVectorV = newKvV;
 		result.ControlPoints = newControlPoints;
 	}
@@ -466,7 +476,11 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 				curve.ControlPoints = wControlPoints;
 
 				LNLib::LN_NurbsCurve resultCurve;
-				LNLib::NurbsCurve::InsertKnot(curve, insertKnot, times, resultCurve);
+				if (LNLib::NurbsCurve::InsertKnot(curve, insertKnot, times, resultCurve) == 0)
+				{
+					result = volume;
+					return;
+				}
 
 				newKvW = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
@@ -478,6 +492,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		for (auto& row : newControlPoints) for (auto& column : row) column.resize(newKvW.size() - degreeW - 1);
 		result.KnotVectorW = newKvW;
 		result.ControlPoints = newControlPoints;
 	}
-- 
2.43.0


From cb79658cd114ddb76c6ab23eccff8c3222b5fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 061/106] fix: volume RefineKnotVector wrote past the end of
 its control points

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 53d6159..b9b6e1c 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -880,7 +880,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
 
-	int times = insertKnotElements.size() - 1;
+	int times = insertKnotElements.size();
 	if (direction == VolumeDirection::U)
 	{
 		newControlPoints.resize(n + times + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-- 
2.43.0


From 75b46988e7e0584df2b1f8072509ad23e8a40fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 062/106] fix: volume ElevateDegree left surplus control points
 for repeated interior knots

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index b9b6e1c..8d9a565 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1065,6 +1065,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 			}
 		}
 
+		newControlPoints.resize(newkvU.size() - (degreeU + times) - 1);
 		result.DegreeU = degreeU + times;
 		result.DegreeV = degreeV;
 		result.DegreeW = degreeW;
@@ -1115,6 +1116,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 			}
 		}
 
+		for (auto& row : newControlPoints) row.resize(newkvV.size() - (degreeV + times) - 1);
 		result.DegreeU = degreeU;
 		result.DegreeV = degreeV + times;
 		result.DegreeW = degreeW;
@@ -1165,6 +1167,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 			}
 		}
 
+		for (auto& row : newControlPoints) for (auto& column : row) column.resize(newkvW.size() - (degreeW + times) - 1);
 		result.DegreeU = degreeU;
 		result.DegreeV = degreeV;
 		result.DegreeW = degreeW + times;
-- 
2.43.0


From 052492fe5e9493554c37d986ef5180d3fe0e5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 063/106] fix: volume Reverse along V and W wrote to an empty
 net

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 8d9a565..d5eac5b 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1495,6 +1495,8 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvR = kvU;
 		std::vector<double> kvT = kvW;
 
+		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
+
 		std::vector<double> kvS;
 
 		for (int sep = 0; sep <= l; sep++)
@@ -1534,6 +1536,8 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvR = kvU;
 		std::vector<double> kvS = kvV;
 
+		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
+
 		std::vector<double> kvT;
 
 		for (int col = 0; col <= m; col++)
-- 
2.43.0


From da426d98548e16b388401455a8aa5466187df716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 064/106] fix: volume Swap did nothing unless the directions
 were given in order

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index d5eac5b..54f7aa9 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1591,6 +1591,16 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 	int v = controlPoints[0].size();
 	int w = controlPoints[0][0].size();
 
+	if (direction == swap)
+	{
+		result = volume;
+		return;
+	}
+	if (direction > swap)
+	{
+		std::swap(direction, swap);
+	}
+
 	if (direction == VolumeDirection::U && swap == VolumeDirection::V)
 	{
 		result.DegreeU = degreeV;
-- 
2.43.0


From 347660217f841b43482d442b78d806e09be824c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:49 +0000
Subject: [PATCH 065/106] fix: volume Extract never returned the surface

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 24 ++++++-----------------
 src/LNLib/include/NurbsVolume.h           |  2 +-
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 54f7aa9..cba6f61 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -685,7 +685,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 	return true;
 }
 
-bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface)
+bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface)
 {
 	int degreeU = volume.DegreeU;
 	int degreeV = volume.DegreeV;
@@ -701,8 +701,11 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 	LN_NurbsVolume insertVolume;
 	int k, s, rr;
 
-	int newDegreeU, newDegreeV;
-	std::vector<double> newKvU, newKvV;
+	// The remaining two directions, in their order, are the directions of the surface.
+	int newDegreeU = direction == VolumeDirection::U ? degreeV : degreeU;
+	int newDegreeV = direction == VolumeDirection::W ? degreeV : degreeW;
+	std::vector<double> newKvU = direction == VolumeDirection::U ? kvV : kvU;
+	std::vector<double> newKvV = direction == VolumeDirection::W ? kvV : kvW;
 
 	if (direction == VolumeDirection::U)
 	{
@@ -733,11 +736,6 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			}
 			Pwc = controlPoints[k - s];
-
-			newDegreeU = degreeV;
-			newDegreeV = degreeW;
-			newKvU = kvV;
-			newKvV = kvW;
 		}
 	}
 	else if (direction == VolumeDirection::V)
@@ -787,11 +785,6 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				}
 			}
 			Pwc = tempPwc;
-
-			newDegreeU = degreeW;
-			newDegreeV = degreeU;
-			newKvU = kvW;
-			newKvV = kvU;
 		}
 	}
 	else if (direction == VolumeDirection::W)
@@ -841,11 +834,6 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 					Pwc[i][j] = controlPoints[i][j][k - s];
 				}
 			}
-
-			newDegreeU = degreeU;
-			newDegreeV = degreeV;
-			newKvU = kvU;
-			newKvV = kvV;
 		}
 	}
 
diff --git a/src/LNLib/include/NurbsVolume.h b/src/LNLib/include/NurbsVolume.h
index 1230ec1..2da659a 100644
--- a/src/LNLib/include/NurbsVolume.h
+++ b/src/LNLib/include/NurbsVolume.h
@@ -37,7 +37,7 @@ namespace LNLib
 
         static bool SplitAt(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LN_NurbsVolume& first, LN_NurbsVolume& second);
 
-        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface);
+        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface);
 
         static void RefineKnotVector(const LN_NurbsVolume& volume, const std::vector<double>& insertKnotElements, VolumeDirection direction, LN_NurbsVolume& result);
 
-- 
2.43.0


From 449d17e47a99f217a5eb040488e55be1e8afe7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:36 +0000
Subject: [PATCH 066/106] fix: splitting or cutting a volume next to a knot
 gave decreasing knots

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index cba6f61..ec0f848 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -510,6 +510,16 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> controlPoints = volume.ControlPoints;
 
+	// A parameter that equals an existing knot up to tolerance has to be that very knot.
+	for (double knot : direction == VolumeDirection::U ? kvU : direction == VolumeDirection::V ? kvV : kvW)
+	{
+		if (LNLib::MathUtils::IsAlmostEqualTo(knot, parameter))
+		{
+			parameter = knot;
+			break;
+		}
+	}
+
 	LN_NurbsVolume insertVolume;
 	int k, s, rr;
 
@@ -698,6 +708,16 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> controlPoints = volume.ControlPoints;
 	std::vector<std::vector<LNLib::XYZW>> Pwc;
 
+	// A parameter that equals an existing knot up to tolerance has to be that very knot.
+	for (double knot : direction == VolumeDirection::U ? kvU : direction == VolumeDirection::V ? kvV : kvW)
+	{
+		if (LNLib::MathUtils::IsAlmostEqualTo(knot, parameter))
+		{
+			parameter = knot;
+			break;
+		}
+	}
+
 	LN_NurbsVolume insertVolume;
 	int k, s, rr;
 
-- 
2.43.0


From 5e91e89dd37ce2456c651f84593a9a76206bb377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:04 +0000
Subject: [PATCH 067/106] fix: GetParamOnVolume left the domain and did not
 converge for small or boundary points

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 135 +++++++++++-----------
 1 file changed, 66 insertions(+), 69 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index ec0f848..fc86dc7 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1331,22 +1331,16 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 
 
 	UVW param = bestParam;
-	int maxIterations = 20;
+	int maxIterations = 50;
 
 	for (int iter = 0; iter < maxIterations; ++iter)
 	{
-		std::vector<std::vector<std::vector<LNLib::XYZ>>> ders = ComputeVolumeRationalDerivatives(volume, 2, param);
+		std::vector<std::vector<std::vector<LNLib::XYZ>>> ders = ComputeVolumeRationalDerivatives(volume, 1, param);
 
 		XYZ V = ders[0][0][0];
 		XYZ Vu = ders[1][0][0];
 		XYZ Vv = ders[0][1][0];
 		XYZ Vw = ders[0][0][1];
-		XYZ Vuu = ders[2][0][0];
-		XYZ Vvv = ders[0][2][0];
-		XYZ Vww = ders[0][0][2];
-		XYZ Vuv = ders[1][1][0];
-		XYZ Vuw = ders[1][0][1];
-		XYZ Vvw = ders[0][1][1];
 
 		XYZ diff = V - givenPoint;
 		double currentDist = diff.Length();
@@ -1355,81 +1349,84 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 			return param;
 		}
 
-		double J00 = Vu.DotProduct(Vu) + diff.DotProduct(Vuu);
-		double J01 = Vu.DotProduct(Vv) + diff.DotProduct(Vuv);
-		double J02 = Vu.DotProduct(Vw) + diff.DotProduct(Vuw);
-
-		double J10 = J01;
-		double J11 = Vv.DotProduct(Vv) + diff.DotProduct(Vvv);
-		double J12 = Vv.DotProduct(Vw) + diff.DotProduct(Vvw);
-
-		double J20 = J02;
-		double J21 = J12;
-		double J22 = Vw.DotProduct(Vw) + diff.DotProduct(Vww);
+		// Directions in which the search stands at the boundary and would leave the volume are held.
+		bool isHeld[3] = { false, false, false };
+		double deltaU = 0.0, deltaV = 0.0, deltaW = 0.0;
+		bool isSolved = false;
+		for (int attempt = 0; attempt < 3 && !isSolved; attempt++)
+		{
+			double J00 = isHeld[0] ? 1.0 : Vu.DotProduct(Vu);
+			double J01 = isHeld[0] || isHeld[1] ? 0.0 : Vu.DotProduct(Vv);
+			double J02 = isHeld[0] || isHeld[2] ? 0.0 : Vu.DotProduct(Vw);
 
-		double K0 = Vu.DotProduct(diff);
-		double K1 = Vv.DotProduct(diff);
-		double K2 = Vw.DotProduct(diff);
+			double J10 = J01;
+			double J11 = isHeld[1] ? 1.0 : Vv.DotProduct(Vv);
+			double J12 = isHeld[1] || isHeld[2] ? 0.0 : Vv.DotProduct(Vw);
 
-		double det = J00 * (J11 * J22 - J12 * J21)
-			- J01 * (J10 * J22 - J12 * J20)
-			+ J02 * (J10 * J21 - J11 * J20);
+			double J20 = J02;
+			double J21 = J12;
+			double J22 = isHeld[2] ? 1.0 : Vw.DotProduct(Vw);
 
-		if (MathUtils::IsAlmostEqualTo(std::abs(det), 0.0)) {
-			break;
-		}
+			double K0 = isHeld[0] ? 0.0 : Vu.DotProduct(diff);
+			double K1 = isHeld[1] ? 0.0 : Vv.DotProduct(diff);
+			double K2 = isHeld[2] ? 0.0 : Vw.DotProduct(diff);
 
-		double deltaU = ((-K0) * (J11 * J22 - J12 * J21)
-			- J01 * ((-K1) * J22 - J12 * (-K2))
-			+ J02 * ((-K1) * J21 - J11 * (-K2))) / det;
+			double det = J00 * (J11 * J22 - J12 * J21)
+				- J01 * (J10 * J22 - J12 * J20)
+				+ J02 * (J10 * J21 - J11 * J20);
 
-		double deltaV = (J00 * ((-K1) * J22 - J12 * (-K2))
-			- (-K0) * (J10 * J22 - J12 * J20)
-			+ J02 * (J10 * (-K2) - (-K1) * J20)) / det;
-
-		double deltaW = (J00 * (J11 * (-K2) - (-K1) * J21)
-			- J01 * (J10 * (-K2) - (-K1) * J20)
-			+ (-K0) * (J10 * J21 - J11 * J20)) / det;
+			if (det <= std::numeric_limits<double>::epsilon() * J00 * J11 * J22) {
+				break;
+			}
 
+			deltaU = ((-K0) * (J11 * J22 - J12 * J21)
+				- J01 * ((-K1) * J22 - J12 * (-K2))
+				+ J02 * ((-K1) * J21 - J11 * (-K2))) / det;
 
-		double newU = param.GetU() + deltaU;
-		double newV = param.GetV() + deltaV;
-		double newW = param.GetW() + deltaW;
+			deltaV = (J00 * ((-K1) * J22 - J12 * (-K2))
+				- (-K0) * (J10 * J22 - J12 * J20)
+				+ J02 * (J10 * (-K2) - (-K1) * J20)) / det;
 
-		XYZ deltaWorld = Vu * deltaU + Vv * deltaV + Vw * deltaW;
-		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0, LNLib::Constants::DistanceEpsilon)) {
-			param = UVW(newU, newV, newW);
-			break;
-		}
+			deltaW = (J00 * (J11 * (-K2) - (-K1) * J21)
+				- J01 * (J10 * (-K2) - (-K1) * J20)
+				+ (-K0) * (J10 * J21 - J11 * J20)) / det;
 
-		if (isClosedU) {
-			double range = maxU - minU;
-			while (newU < minU) newU += range;
-			while (newU > maxU) newU -= range;
-		}
-		else {
-			newU = std::max(minU, std::min(maxU, newU));
-		}
-
-		if (isClosedV) {
-			double range = maxV - minV;
-			while (newV < minV) newV += range;
-			while (newV > maxV) newV -= range;
+			isSolved = true;
+			auto hold = [&](int index, double value, double delta, double minimum, double maximum, bool isClosed) {
+				if (!isClosed && !isHeld[index] && ((value <= minimum && delta < 0.0) || (value >= maximum && delta > 0.0))) {
+					isHeld[index] = true;
+					isSolved = false;
+				}
+				};
+			hold(0, param.GetU(), deltaU, minU, maxU, isClosedU);
+			hold(1, param.GetV(), deltaV, minV, maxV, isClosedV);
+			hold(2, param.GetW(), deltaW, minW, maxW, isClosedW);
 		}
-		else {
-			newV = std::max(minV, std::min(maxV, newV));
+		if (!isSolved) {
+			break;
 		}
 
-		if (isClosedW) {
-			double range = maxW - minW;
-			while (newW < minW) newW += range;
-			while (newW > maxW) newW -= range;
+		auto keepInRange = [](double value, double minimum, double maximum, bool isClosed) {
+			if (isClosed && (value < minimum || value > maximum)) {
+				double range = maximum - minimum;
+				value -= std::floor((value - minimum) / range) * range;
+			}
+			return std::max(minimum, std::min(maximum, value));
+			};
+
+		// Full steps may leave the volume or overshoot, only steps which come closer are taken.
+		UVW next = param;
+		bool isCloser = false;
+		for (double factor = 1.0; factor > 1e-3 && !isCloser; factor *= 0.5) {
+			next = UVW(keepInRange(param.GetU() + factor * deltaU, minU, maxU, isClosedU),
+				keepInRange(param.GetV() + factor * deltaV, minV, maxV, isClosedV),
+				keepInRange(param.GetW() + factor * deltaW, minW, maxW, isClosedW));
+			isCloser = GetPointOnVolume(volume, next).Distance(givenPoint) < currentDist;
 		}
-		else {
-			newW = std::max(minW, std::min(maxW, newW));
+		if (!isCloser) {
+			break;
 		}
-
-		param = UVW(newU, newV, newW);
+		param = next;
 	}
 
 	return param;
-- 
2.43.0


From 488606bd7f1022d0b102e3aaaf233f1c0b64a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:29 +0000
Subject: [PATCH 068/106] fix: IsIdentity and IsTranslation accepted matrices
 whose other elements cancel

---
 src/LNLib/Mathematics/Math/Matrix4d.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Mathematics/Math/Matrix4d.cpp b/src/LNLib/Mathematics/Math/Matrix4d.cpp
index d9518a5..0d1fde6 100644
--- a/src/LNLib/Mathematics/Math/Matrix4d.cpp
+++ b/src/LNLib/Mathematics/Math/Matrix4d.cpp
@@ -14,6 +14,7 @@
 #include "MathUtils.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstring>
 
 using namespace LNLib;
@@ -363,10 +364,10 @@ bool LNLib::Matrix4d::IsIdentity()
 		return false;
 	}
 
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] + m_matrix4d[0][3] +
-		         m_matrix4d[1][0] + m_matrix4d[1][2] + m_matrix4d[1][3] +
-		         m_matrix4d[2][0] + m_matrix4d[2][1] + m_matrix4d[2][3] +
-		         m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
+	double sum = std::abs(m_matrix4d[0][1]) + std::abs(m_matrix4d[0][2]) + std::abs(m_matrix4d[0][3]) +
+		         std::abs(m_matrix4d[1][0]) + std::abs(m_matrix4d[1][2]) + std::abs(m_matrix4d[1][3]) +
+		         std::abs(m_matrix4d[2][0]) + std::abs(m_matrix4d[2][1]) + std::abs(m_matrix4d[2][3]) +
+		         std::abs(m_matrix4d[3][0]) + std::abs(m_matrix4d[3][1]) + std::abs(m_matrix4d[3][2]);
 	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
 	if (!c4)
 	{
@@ -388,10 +389,10 @@ bool LNLib::Matrix4d::IsTranslation()
 	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
 	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
 
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] +
-				 m_matrix4d[1][0] + m_matrix4d[1][2] +
-				 m_matrix4d[2][0] + m_matrix4d[2][1] +
-				 m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
+	double sum = std::abs(m_matrix4d[0][1]) + std::abs(m_matrix4d[0][2]) +
+				 std::abs(m_matrix4d[1][0]) + std::abs(m_matrix4d[1][2]) +
+				 std::abs(m_matrix4d[2][0]) + std::abs(m_matrix4d[2][1]) +
+				 std::abs(m_matrix4d[3][0]) + std::abs(m_matrix4d[3][1]) + std::abs(m_matrix4d[3][2]);
 
 	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
 	return c1 && c2 && c3 && c4;
-- 
2.43.0


From 516c97bd81a076a5cba745f78c9d7735f9772f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:29 +0000
Subject: [PATCH 069/106] fix: CreateRandomOrthogonal returned the zero vector
 for directions along (1,-1,1)

---
 src/LNLib/Mathematics/Math/XYZ.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Mathematics/Math/XYZ.cpp b/src/LNLib/Mathematics/Math/XYZ.cpp
index f555bfa..f6e3615 100644
--- a/src/LNLib/Mathematics/Math/XYZ.cpp
+++ b/src/LNLib/Mathematics/Math/XYZ.cpp
@@ -176,6 +176,10 @@ XYZ LNLib::XYZ::CreateRandomOrthogonal(const XYZ& xyz)
 	XYZ current = xyz;
 	XYZ normal = current.Normalize();
 	XYZ tangent = normal.CrossProduct(XYZ(-normal.GetZ(), normal.GetX(), normal.GetY()));
+	if (tangent.IsZero())
+	{
+		tangent = normal.CrossProduct(XYZ(1, 0, 0));
+	}
 	XYZ bitangent = normal.CrossProduct(tangent);
 
 	std::random_device rd;
-- 
2.43.0


From b54c1b27940ae56c07c8b38efaf3698c12a1f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:36 +0000
Subject: [PATCH 070/106] fix: MakeInverse reported success for singular
 matrices

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp   | 3 ++-
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index af90a49..089a0eb 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3435,7 +3435,8 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	MathUtils::Transpose(Bopt, Bt);
 	std::vector<std::vector<double>> BoptBt = MathUtils::MatrixMultiply(Bopt, Bt);
 	std::vector<std::vector<double>> BBt;
-	MathUtils::MakeInverse(BoptBt, BBt);
+	bool isInvertible = MathUtils::MakeInverse(BoptBt, BBt);
+	VALIDATE_ARGUMENT(isInvertible, "constraintParams", "Constraints must be independent.");
 
 	auto A = MathUtils::MatrixMultiply(Bt, BBt);
 	std::vector<std::vector<double>> dD(D.size(), std::vector<double>(3));
diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index ec6dca1..c5296d8 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -211,7 +211,11 @@ bool LNLib::MathUtils::MakeInverse(const std::vector<std::vector<double>>& matri
         m.row(i) = Eigen::VectorXd::Map(&matrix[i][0], matrix[i].size());
     }
 
-    auto result = m.inverse();
+    Eigen::MatrixXd result = m.inverse();
+    if (!(m * result).isIdentity(Constants::DistanceEpsilon))
+    {
+        return false;
+    }
     inverse.resize(row);
     for (int k = 0; k < row; k++)
     {
-- 
2.43.0


From a4333caacf8f56442dcf7766b1ef9847e2d34e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:21 +0000
Subject: [PATCH 071/106] fix: Transpose appended to what its output held
 before

---
 src/LNLib/include/MathUtils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/include/MathUtils.h b/src/LNLib/include/MathUtils.h
index 4d5afb9..83437a3 100644
--- a/src/LNLib/include/MathUtils.h
+++ b/src/LNLib/include/MathUtils.h
@@ -59,6 +59,7 @@ namespace LNLib
 		template<typename T>
 		static void Transpose(const std::vector<std::vector<T>>& matrix, std::vector<std::vector<T>>& transposed)
 		{
+			std::vector<std::vector<T>> result;
 			std::vector<T> temp;
 
 			for (int i = 0; i < matrix[0].size(); i++)
@@ -67,9 +68,10 @@ namespace LNLib
 				{
 					temp.emplace_back(matrix[j][i]);
 				}
-				transposed.emplace_back(temp);
+				result.emplace_back(temp);
 				temp.erase(temp.begin(), temp.end());
 			}
+			transposed = result;
 		}
 
 		template<typename T>
-- 
2.43.0


From ac07a8f3b20f3247105b1b85e9ea8e31922f0c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:21 +0000
Subject: [PATCH 072/106] fix: SolveLinearSystemBanded wrote out of range
 unless its result was sized beforehand

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index c5296d8..9651ad3 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -325,6 +325,7 @@ bool LNLib::MathUtils::SolveLinearSystemBanded(int matrixDimension, const std::v
         return false;
     }
 
+    result.assign(n, std::vector<double>(right[0].size()));
     for (int k = 0; k < right[0].size(); k++)
     {
         Eigen::VectorXd rhs(n), solution(n);
-- 
2.43.0


From 945d22c65abfc8627ee463973e639448d85f63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:21 +0000
Subject: [PATCH 073/106] fix: ComputerCubicEquationsWithOneVariable never
 returned when Newton iteration cycles

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index 9651ad3..1b86f03 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -126,8 +126,23 @@ double LNLib::MathUtils::ComputerCubicEquationsWithOneVariable(double cubic, dou
     double result;
     double initial = 0.001;
     result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
-    while(MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon))
+    int iterations = 0;
+    while(!MathUtils::IsLessThanOrEqual(std::abs(result-initial),Constants::DoubleEpsilon))
     {
+        if (++iterations > 100 || !std::isfinite(result))
+        {
+            // Newton iteration does not converge: bisect between bounds of the roots.
+            double bound = 1.0 + std::max(std::abs(quadratic), std::max(std::abs(linear), std::abs(constant))) / std::abs(cubic);
+            double negative = cubic > 0 ? -bound : bound;
+            double positive = -negative;
+            for (int i = 0; i < 100; i++)
+            {
+                result = (negative + positive) / 2.0;
+                double value = ((cubic * result + quadratic) * result + linear) * result + constant;
+                (value < 0 ? negative : positive) = result;
+            }
+            return result;
+        }
         initial = result;
         result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
     }
-- 
2.43.0


From ab079a64b64a31155d97c307979441139393c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:00 +0000
Subject: [PATCH 074/106] fix: octree searches skipped octants within small
 radii

---
 src/LNLib/Algorithm/Octree/Octree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Octree/Octree.cpp b/src/LNLib/Algorithm/Octree/Octree.cpp
index 4c3c33b..d8aa936 100644
--- a/src/LNLib/Algorithm/Octree/Octree.cpp
+++ b/src/LNLib/Algorithm/Octree/Octree.cpp
@@ -57,7 +57,7 @@ bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octa
     double zDiff = std::max(az - octant->Extent, 0.0);
 
     LNLib::XYZ diff(xDiff, yDiff, zDiff);
-    return  MathUtils::IsLessThan(diff.SqrLength(),(radius * radius));
+    return  MathUtils::IsLessThanOrEqual(diff.Length(), radius);
 }
 
 bool LNLib::Contains(const LNLib::XYZ& query, double radius, LNLib::Octant* octant) {
-- 
2.43.0


From 39421ab26bd3d8772998ce915bf7244a422bec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:00 +0000
Subject: [PATCH 075/106] fix: nearest neighbours were replaced by slightly
 farther ones

---
 src/LNLib/Algorithm/Octree/OctreeCollector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Octree/OctreeCollector.cpp b/src/LNLib/Algorithm/Octree/OctreeCollector.cpp
index f4d269d..9ecc7d7 100644
--- a/src/LNLib/Algorithm/Octree/OctreeCollector.cpp
+++ b/src/LNLib/Algorithm/Octree/OctreeCollector.cpp
@@ -26,7 +26,7 @@ double LNLib::KnnResultSet::WorstDist() const { return WorstDistValue; }
 void LNLib::KnnResultSet::AddPoint(double dist, int index) {
     ComparisonCounter++;
 
-    if (MathUtils::IsGreaterThan(dist,WorstDistValue)) return;
+    if (dist > WorstDistValue) return;
 
     int i;
     if (Count < Capacity) {
@@ -38,7 +38,7 @@ void LNLib::KnnResultSet::AddPoint(double dist, int index) {
     }
 
     while (i > 0) {
-        if (MathUtils::IsGreaterThan(DistIndexList[i - 1].Distance,dist)) {
+        if (DistIndexList[i - 1].Distance > dist) {
             DistIndexList[i] = DistIndexList[i - 1];
             i--;
         }
-- 
2.43.0


From fbe5e7d5b8bb324679984d126dc2d73ee26d93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:00 +0000
Subject: [PATCH 076/106] fix: lines with short directions were taken for
 parallel or coincident

---
 src/LNLib/Algorithm/Intersection.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Algorithm/Intersection.cpp b/src/LNLib/Algorithm/Intersection.cpp
index b5feed5..199d330 100644
--- a/src/LNLib/Algorithm/Intersection.cpp
+++ b/src/LNLib/Algorithm/Intersection.cpp
@@ -13,6 +13,9 @@
 #include "MathUtils.h"
 #include "LNLibExceptions.h"
 
+#include <algorithm>
+#include <cmath>
+
 using namespace LNLib;
 
 CurveCurveIntersectionType Intersection::ComputeRays(
@@ -43,9 +46,9 @@ CurveCurveIntersectionType Intersection::ComputeRays(
 
     double denom = a * c - b * b;
 
-    if (MathUtils::IsAlmostEqualTo(std::abs(denom), 0.0)) {
+    if (MathUtils::IsAlmostEqualTo(std::abs(denom), 0.0, Constants::DoubleEpsilon * std::min(1.0, a * c))) {
         XYZ w = point1 - point0;
-        if (MathUtils::IsAlmostEqualTo(w.CrossProduct(vector0).Length(), 0.0)) {
+        if (MathUtils::IsAlmostEqualTo(w.CrossProduct(vector0).Length() / std::sqrt(a), 0.0)) {
             param0 = param1 = 0.0;
             intersectPoint = point0;
             return CurveCurveIntersectionType::Coincident;
@@ -78,13 +81,14 @@ LinePlaneIntersectionType LNLib::Intersection::ComputeLineAndPlane(
 	const XYZ& lineDirection,
 	XYZ& intersectPoint)
 {
+	double length = normal.Length();
 	double denom = lineDirection.DotProduct(normal);
 
 	XYZ P0Q = pointOnLine - pointOnPlane;
 	double numer = -P0Q.DotProduct(normal);
 
-	if (MathUtils::IsAlmostEqualTo(std::abs(denom),0.0)) {
-		if (MathUtils::IsAlmostEqualTo(std::abs(numer), 0.0)) {
+	if (MathUtils::IsAlmostEqualTo(std::abs(denom), 0.0, Constants::DoubleEpsilon * std::min(1.0, length * lineDirection.Length()))) {
+		if (MathUtils::IsAlmostEqualTo(std::abs(numer), 0.0, Constants::DoubleEpsilon * length)) {
 			intersectPoint = pointOnLine;
 			return LinePlaneIntersectionType::On;
 		}
-- 
2.43.0


From b28d14937a8dea16c66d548c67e33ae676c0afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:00 +0000
Subject: [PATCH 077/106] fix: PointToLine refused segments shorter than a
 thousandth

---
 src/LNLib/Algorithm/Projection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Projection.cpp b/src/LNLib/Algorithm/Projection.cpp
index cfb0b9f..0039b41 100644
--- a/src/LNLib/Algorithm/Projection.cpp
+++ b/src/LNLib/Algorithm/Projection.cpp
@@ -27,7 +27,7 @@ bool LNLib::Projection::PointToLine(const XYZ& start, const XYZ& end, const XYZ&
     XYZ direction = end - start;
     double lenSqr = direction.DotProduct(direction);
 
-    if (MathUtils::IsAlmostEqualTo(lenSqr, 0.0)) {
+    if (direction.IsZero()) {
         return false;
     }
 
-- 
2.43.0


From f610aeb5d42d212d2334ada95ccaabea031a5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 078/106] fix: Coons surfaces mixed two orientations of the
 left and right curves

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1c2009c..01ca89e 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3124,8 +3124,8 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 
 	{
 		LN_NurbsCurve tc;
-		NurbsCurve::Reverse(nurbs[2], tc);
-		nurbs[2] = tc;
+		NurbsCurve::Reverse(nurbs[0], tc);
+		nurbs[0] = tc;
 	}
 
 	{
@@ -3142,10 +3142,10 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 		nurbs[i] = tc;
 	}
 
-	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
-	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
-	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
-	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
+	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
+	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
 
 	VALIDATE_ARGUMENT(isP00 & isP01 & isP10 & isP11, "Curves", "Four Corners must be connected.");
 
-- 
2.43.0


From 497b605dbc4cc8eb42b144185c6bf62cb821a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 079/106] fix: lofting needed sections with equal knots and
 more of them than the degree

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 01ca89e..71b73ab 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2628,12 +2628,28 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			current.KnotVector = tc.KnotVector;
 			current.ControlPoints = tc.ControlPoints;
 		}
-		curvesControlPoints[k] = current.ControlPoints;
 		internals[k] = current;
 	}
 
+	std::vector<std::vector<double>> knotVectors;
+	for (int k = 0; k < size; k++)
+	{
+		knotVectors.emplace_back(internals[k].KnotVector);
+	}
+	auto insertElements = KnotVectorUtils::GetInsertedKnotElements(knotVectors);
+	for (int k = 0; k < size; k++)
+	{
+		if (insertElements[k].size() > 0)
+		{
+			LN_NurbsCurve tc;
+			NurbsCurve::RefineKnotVector(internals[k], insertElements[k], tc);
+			internals[k] = tc;
+		}
+		curvesControlPoints[k] = internals[k].ControlPoints;
+	}
+
 	int degreeU = degree_max;
-	int degreeV = degree_max;
+	int degreeV = std::min(degree_max, size - 1);
 
 	std::vector<double> vl(size);
 	if (customTrajectoryKnotVector.size() == 0)
-- 
2.43.0


From fda2e46442554347f8e8e561a690531357cfaf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 080/106] fix: lofting sections that share a control point gave
 NaN parameters

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 71b73ab..b61dec4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2663,6 +2663,7 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			std::vector<XYZW> current = curvesControlPoints[k];
 			int n = current.size() - 1;
 			double sum = 0.0;
+			int count = 0;
 			for (int i = 0; i <= n; i++)
 			{
 				double delta = curvesControlPoints[k][i].ToXYZ(true).Distance(curvesControlPoints[k - 1][i].ToXYZ(true));
@@ -2674,10 +2675,12 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 				}
 
 				double di = Interpolation::GetTotalChordLength(tempPoints);
+				if (MathUtils::IsLessThanOrEqual(di, 0.0)) continue;
 				sum += delta / di;
+				count++;
 			}
 
-			vl[k] = vl[k - 1] + (1.0 / (n + 1)) * sum;
+			vl[k] = vl[k - 1] + (1.0 / count) * sum;
 		}
 	}
 	else
-- 
2.43.0


From 3b3660626091564996c6385dd37e622a4ee2ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 081/106] fix: lofting rational sections of different weights
 missed them

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b61dec4..b728842 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2694,21 +2694,21 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 	for (int c = 0; c < column; c++)
 	{
 		std::vector<XYZ> temp(size);
-		std::vector<double> weightCache(size);
+		std::vector<XYZ> weightCache(size);
 		for (int k = 0; k < size; k++)
 		{
 			XYZW cp = curvesControlPoints[k][c];
-			double w = cp.GetW();
-			weightCache[k] = w;
-			temp[k] = XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w);
+			weightCache[k] = XYZ(cp.GetW(), 0, 0);
+			temp[k] = XYZ(cp.GetWX(), cp.GetWY(), cp.GetWZ());
 		}
 		LN_NurbsCurve tc;
 		NurbsCurve::GlobalInterpolation(degreeV, temp, tc, vl);
+		LN_NurbsCurve wc;
+		NurbsCurve::GlobalInterpolation(degreeV, weightCache, wc, vl);
 		for (int i = 0; i < tc.ControlPoints.size(); i++)
 		{
 			XYZW cp = tc.ControlPoints[i];
-			double w = cp.GetW();
-			tc.ControlPoints[i] = XYZW(XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w), weightCache[i]);
+			tc.ControlPoints[i] = XYZW(cp.GetWX(), cp.GetWY(), cp.GetWZ(), wc.ControlPoints[i].GetWX());
 		}
 		controlPoints.emplace_back(tc.ControlPoints);
 	}
-- 
2.43.0


From 15f3a768f9ba5e59e8e7c4fd4b06f490740d3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 082/106] fix: Gordon surfaces interpolated the crossings with
 degrees of the wrong direction

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b728842..c5c094f 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2993,9 +2993,9 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	loftSurfaceU.KnotVectorV = ts.KnotVectorU;
 	loftSurfaceU.ControlPoints = transposedControlPoints;
 
-	int degreeU = std::min(columns - 1, degree_u_max);
-	int degreeV = std::min(rows - 1, degree_v_max);
-	GlobalInterpolation(intersectionPoints, degreeU, degreeV, ts);
+	int degreeU = loftSurfaceU.DegreeU;
+	int degreeV = loftSurfaceV.DegreeV;
+	GlobalInterpolation(intersectionPoints, degreeV, degreeU, ts);
 	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
 	LN_NurbsSurface interpolatedSurface;
 	Swap(ts, interpolatedSurface);
-- 
2.43.0


From 80527920693a0925db42437120f3138521c870f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 083/106] fix: swept sections were sheared between the knots of
 the trajectory

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index c5c094f..ee97478 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2806,7 +2806,7 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 		// Build local coordinate system for the section.
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(trajectoryCopy, 1, vk[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(trajectoryCopy.Degree, trajectoryCopy.KnotVector, vk[k]);
-		const XYZ& xdir = Bv[spanIndex];
+		XYZ xdir = (Bv[spanIndex] - Bv[spanIndex].DotProduct(zdir) * zdir).Normalize();
 		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
 
 		// Transform the input profile to the lofting position.
@@ -2860,7 +2860,7 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	{
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(path, 1, segments[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(path.Degree, path.KnotVector, segments[k]);
-		XYZ xdir = Bv[spanIndex];
+		XYZ xdir = (Bv[spanIndex] - Bv[spanIndex].DotProduct(zdir) * zdir).Normalize();
 		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
 
 		std::vector<XYZW> transformedControlPoints(profileCpSize);
-- 
2.43.0


From c5584dab41067670812ba0e7cfe050fdccf8e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 084/106] fix: sweeping with a given degree could place the
 last section anywhere but at the end

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index ee97478..6455feb 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2845,8 +2845,9 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 
 	std::vector<double> segments(nsect);
 	segments[0] = 0.0;
+	segments[nsect - 1] = 1.0;
 	std::vector<double> params = NurbsCurve::GetParamsOnCurve(path, stepLength);
-	for (int i = 0; i < params.size(); i++)
+	for (int i = 0; i < params.size() && i + 1 < nsect - 1; i++)
 	{
 		segments[i + 1] = params[i];
 	}
-- 
2.43.0


From 93c822b2047551cdd9cf12c92bd3c54f98d4fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:55 +0000
Subject: [PATCH 085/106] fix: raising the multiplicity of a knot split it in
 two when the vectors differ by rounding

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index d88a941..24f5b6b 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -192,7 +192,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 				int times = count0 - count1;
 				for (int j = 0; j < times; j++)
 				{
-					insertElements1.emplace_back(key0);
+					insertElements1.emplace_back(got->first);
 				}
 			}
 			else
@@ -278,7 +278,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int times = count - currentCount;
 				for (int j = 0; j < times; j++)
 				{
-					insertElements.emplace_back(key);
+					insertElements.emplace_back(got->first);
 				}
 			}
 		}
-- 
2.43.0


From bdf489ec51f1d1b68c90e4aaad3562799a1af4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:16 +0000
Subject: [PATCH 086/106] fix: Triangulate took every surface to be defined on
 the unit square

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 6455feb..236cb7c 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3905,12 +3905,16 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		std::vector<std::vector<XYZ>> points(resolutionU, std::vector<XYZ>(resolutionV));
 		std::vector<std::vector<UV>> uvs(resolutionU, std::vector<UV>(resolutionV));
 
+		double umin = surface.KnotVectorU.front();
+		double umax = surface.KnotVectorU.back();
+		double vmin = surface.KnotVectorV.front();
+		double vmax = surface.KnotVectorV.back();
 		for (int i = 0; i < resolutionU; ++i)
 		{
-			double u = (double)i / (resolutionU - 1);
+			double u = umin + (umax - umin) * i / (resolutionU - 1);
 			for (int j = 0; j < resolutionV; ++j)
 			{
-				double v = (double)j / (resolutionV - 1);
+				double v = vmin + (vmax - vmin) * j / (resolutionV - 1);
 				points[i][j] = GetPointOnSurface(surface, UV(u, v));
 				uvs[i][j] = { u, v };
 			}
-- 
2.43.0


From f5f5ad75f7f546be872ad796aad25ac032d7ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:16 +0000
Subject: [PATCH 087/106] fix: Delaunay triangulations stopped short of two
 edges of the surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 236cb7c..219e7ac 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3839,6 +3839,19 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 			}
 		}
 
+		for (int i = 0; i < samplesU - 1; i++)
+		{
+			newU.emplace_back(us[i]);
+			newV.emplace_back(vmax);
+		}
+		for (int j = 0; j < samplesV - 1; j++)
+		{
+			newU.emplace_back(umax);
+			newV.emplace_back(vs[j]);
+		}
+		newU.emplace_back(umax);
+		newV.emplace_back(vmax);
+
 #pragma region Delaunay Triangulation
 		std::vector<double> usList;
 		usList.insert(usList.end(), newU.begin(), newU.end());
-- 
2.43.0


From e4ea25cbe305839eaf7ea9e9dc5c5f5932ac5964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:16 +0000
Subject: [PATCH 088/106] fix: Delaunay triangulations of closed surfaces
 collapsed

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 219e7ac..26a2f4a 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3863,14 +3863,22 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		row = surfacePoints.size();
 		column = surfacePoints[0].size();
 
-		double uLength0 = surfacePoints[0][0].Distance(surfacePoints[row - 1][0]);
-		double uLength1 = surfacePoints[0][column / 2].Distance(surfacePoints[row - 1][column / 2]);
-		double uLength2 = surfacePoints[0][column - 1].Distance(surfacePoints[row - 1][column - 1]);
+		double uLength0 = 0.0, uLength1 = 0.0, uLength2 = 0.0;
+		for (int i = 1; i < row; i++)
+		{
+			uLength0 += surfacePoints[i - 1][0].Distance(surfacePoints[i][0]);
+			uLength1 += surfacePoints[i - 1][column / 2].Distance(surfacePoints[i][column / 2]);
+			uLength2 += surfacePoints[i - 1][column - 1].Distance(surfacePoints[i][column - 1]);
+		}
 		double uLength = std::max({ uLength0, uLength1, uLength2 });
 
-		double vLength0 = surfacePoints[0][0].Distance(surfacePoints[0][column - 1]);
-		double vLength1 = surfacePoints[row / 2][0].Distance(surfacePoints[row / 2][column - 1]);
-		double vLength2 = surfacePoints[row - 1][column - 1].Distance(surfacePoints[row - 1][column - 1]);
+		double vLength0 = 0.0, vLength1 = 0.0, vLength2 = 0.0;
+		for (int j = 1; j < column; j++)
+		{
+			vLength0 += surfacePoints[0][j - 1].Distance(surfacePoints[0][j]);
+			vLength1 += surfacePoints[row / 2][j - 1].Distance(surfacePoints[row / 2][j]);
+			vLength2 += surfacePoints[row - 1][j - 1].Distance(surfacePoints[row - 1][j]);
+		}
 		double vLength = std::max({ vLength0, vLength1, vLength2 });
 
 		double uCoeff = uLength / (umax - umin);
-- 
2.43.0


From 97e19c2ef5eb54a7ca4417d052aa834ef9125e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:16 +0000
Subject: [PATCH 089/106] fix: Delaunay triangulations lost their precision on
 domains away from zero

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 26a2f4a..d0d74c9 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3889,14 +3889,14 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		float* vValues = new float[uvSize];
 		for (int i = 0; i < uvSize; i++)
 		{
-			uValues[i] = usList[i] * uCoeff;
-			vValues[i] = vsList[i] * vCoeff;
+			uValues[i] = (usList[i] - umin) * uCoeff;
+			vValues[i] = (vsList[i] - vmin) * vCoeff;
 		}
 
-		float uMin = usList[0] * uCoeff;
-		float uMax = usList[usList.size() - 1] * uCoeff;
-		float vMin = vsList[0] * vCoeff;
-		float vMax = vsList[vsList.size() - 1] * vCoeff;
+		float uMin = 0.0f;
+		float uMax = (umax - umin) * uCoeff;
+		float vMin = 0.0f;
+		float vMax = (vmax - vmin) * vCoeff;
 
 		VoronoiDiagramGenerator vdg;
 		vdg.setGenerateVoronoi(true);
-- 
2.43.0


From f095fcfb8e303f0006369df47fb06a3708f0b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:32 +0000
Subject: [PATCH 090/106] fix: the Voronoi generator used misaligned list nodes

---
 src/LNLib/include/Voronoi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/include/Voronoi.h b/src/LNLib/include/Voronoi.h
index c26131e..9919291 100644
--- a/src/LNLib/include/Voronoi.h
+++ b/src/LNLib/include/Voronoi.h
@@ -82,7 +82,7 @@ namespace LNLib
 	};
 
 	// structure used both for sites and for vertices 
-	struct Site
+	struct alignas(Freenode) Site
 	{
 		struct	PointVDG	coord;
 		int		sitenbr;
-- 
2.43.0


From 5d241aa669f464a55341ec13fdf0a4bd37715587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:07 +0000
Subject: [PATCH 091/106] fix: every Delaunay triangulation leaked memory

---
 src/LNLib/Algorithm/Voronoi.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index d769c19..76ee60a 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -714,7 +714,7 @@ void LNLib::VoronoiDiagramGenerator::cleanup()
 	}
 	allMemoryList = 0;
 
-	if (current != 0 && current->memory != 0)
+	if (current != 0)
 	{
 		free(current->memory);
 		delete current;
@@ -743,7 +743,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 	GraphEdge* geCurrent = 0, * gePrev = 0;
 	geCurrent = gePrev = allEdges;
 
-	while (geCurrent != 0 && geCurrent->next != 0)
+	while (geCurrent != 0)
 	{
 		gePrev = geCurrent;
 		geCurrent = geCurrent->next;
@@ -754,7 +754,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 
 	geCurrent = gePrev = delaunayEdges;
 
-	while (geCurrent != 0 && geCurrent->next != 0)
+	while (geCurrent != 0)
 	{
 		gePrev = geCurrent;
 		geCurrent = geCurrent->next;
@@ -1455,6 +1455,8 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 			}
 		}
 	}
+	free(count1vertices);
+	free(count3vertices);
 }
 
 bool LNLib::VoronoiDiagramGenerator::getNextVertexPair(float& x1, float& y1, float& x2, float& y2)
-- 
2.43.0


From 6f6898bb0042068a21a6b5cbdc29701ae306e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:13 +0000
Subject: [PATCH 092/106] fix: a Voronoi generator used again kept the
 triangles of its last run

---
 src/LNLib/Algorithm/Voronoi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index 76ee60a..63b8fd4 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -116,6 +116,7 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 {
 	cleanup();
 	cleanupEdges();
+	triangles.clear();
 	int i;
 
 	minDistanceBetweenSites = minDist;
-- 
2.43.0


From 38476f39a1e4a6a50aba1e714e9b9e5073717b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:02 +0000
Subject: [PATCH 093/106] fix: IsPeriodic compared derivatives outside the
 domain of the curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 089a0eb..93817a0 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3565,8 +3565,8 @@ bool LNLib::NurbsCurve::IsPeriodic(const LN_NurbsCurve& curve)
 		return false;
 	}
 
-	double first = knotVector[0];
-	double end = knotVector[knotVector.size() - 1];
+	double first = knotVector[degree];
+	double end = knotVector[knotVector.size() - 1 - degree];
 
 	int cFirst = KnotVectorUtils::GetContinuity(curve.Degree, knotVector, first);
 	int cEnd = KnotVectorUtils::GetContinuity(curve.Degree, knotVector, end);
-- 
2.43.0


From caf2a080b014131e8604a3a839d7b6218d12dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:47 +0000
Subject: [PATCH 094/106] fix: a NaN parameter passed the range checks

---
 src/LNLib/include/LNLibExceptions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/include/LNLibExceptions.h b/src/LNLib/include/LNLibExceptions.h
index f38ab0d..d2949a7 100644
--- a/src/LNLib/include/LNLibExceptions.h
+++ b/src/LNLib/include/LNLibExceptions.h
@@ -19,8 +19,8 @@
 	}
 
 #define VALIDATE_ARGUMENT_RANGE(arg, min, max)\
-	if(((arg)<(min) && std::fabs((arg)-(min))>Constants::DoubleEpsilon) || \
-	  ((arg)>(max) && std::fabs((arg)-(max))>Constants::DoubleEpsilon)){\
+	if((!((arg)>=(min)) && !(std::fabs((arg)-(min))<=Constants::DoubleEpsilon)) || \
+	  (!((arg)<=(max)) && !(std::fabs((arg)-(max))<=Constants::DoubleEpsilon))){\
 		throw std::out_of_range("Argument is out of range["#min","#max"]\r\nParameter name: "#arg);\
 	}
 
-- 
2.43.0


From 8ff6eb2072232922be2a08111f0b0353b5f2b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:06 +0000
Subject: [PATCH 095/106] fix: fewer control points than the order passed the
 validity checks

---
 src/LNLib/Algorithm/ValidationUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/ValidationUtils.cpp b/src/LNLib/Algorithm/ValidationUtils.cpp
index 32629f3..d22874e 100644
--- a/src/LNLib/Algorithm/ValidationUtils.cpp
+++ b/src/LNLib/Algorithm/ValidationUtils.cpp
@@ -27,12 +27,12 @@ bool LNLib::ValidationUtils::IsValidKnotVector(const std::vector<double>& knotVe
 
 bool LNLib::ValidationUtils::IsValidBspline(int degree, int knotVectorCount, int controlPointsCount)
 {
-	return (knotVectorCount - 1) == (controlPointsCount - 1) + degree + 1;
+	return controlPointsCount > degree && (knotVectorCount - 1) == (controlPointsCount - 1) + degree + 1;
 }
 
 bool LNLib::ValidationUtils::IsValidNurbs(int degree, int knotVectorCount, int weightedControlPointsCount)
 {
-	return (knotVectorCount - 1) == (weightedControlPointsCount - 1) + degree + 1;
+	return weightedControlPointsCount > degree && (knotVectorCount - 1) == (weightedControlPointsCount - 1) + degree + 1;
 }
 
 bool LNLib::ValidationUtils::IsValidDegreeReduction(int degree)
-- 
2.43.0


From c567b81a7471d08130a10c41e4ccbac6fb7085c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:06 +0000
Subject: [PATCH 096/106] fix: surfaces with rows of different lengths passed
 Check

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++++
 src/LNLib/include/BezierSurface.h           | 4 ++++
 src/LNLib/include/BsplineSurface.h          | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index d0d74c9..753c297 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -210,6 +210,10 @@ void  LNLib::NurbsSurface::Check(const LN_NurbsSurface& surface)
 	VALIDATE_ARGUMENT(controlPoints.size() > 0, "controlPoints", "ControlPoints must contain one point at least.");
 	VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeU, knotVectorU.size(), controlPoints.size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
 	VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeV, knotVectorV.size(), controlPoints[0].size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
+	for (const auto& row : controlPoints)
+	{
+		VALIDATE_ARGUMENT(row.size() == controlPoints[0].size(), "controlPoints", "All rows must have the same number of columns.");
+	}
 }
 
 LNLib::LN_NurbsCurve LNLib::NurbsSurface::GetIsoCurve(const LN_NurbsSurface& surface, double fixedParam, bool isUDirection)
diff --git a/src/LNLib/include/BezierSurface.h b/src/LNLib/include/BezierSurface.h
index d779e1d..195c649 100644
--- a/src/LNLib/include/BezierSurface.h
+++ b/src/LNLib/include/BezierSurface.h
@@ -37,6 +37,10 @@ namespace LNLib {
 			VALIDATE_ARGUMENT(controlPoints.size() > 0, "controlPoints", "ControlPoints must contain one point at least.");
 			VALIDATE_ARGUMENT(degreeU + 1 == controlPoints.size(), "controlPoints", "ControlPoints row size equals degreeU plus one.");
 			VALIDATE_ARGUMENT(degreeV + 1 == controlPoints[0].size(), "controlPoints", "ControlPoints column size equals degreeV plus one.");
+			for (const auto& row : controlPoints)
+			{
+				VALIDATE_ARGUMENT(row.size() == controlPoints[0].size(), "controlPoints", "All rows must have the same number of columns.");
+			}
 		}
 
 		/// <summary>
diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index ea429d1..831d40e 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -44,6 +44,10 @@ namespace LNLib
 			VALIDATE_ARGUMENT(controlPoints.size() > 0, "controlPoints", "ControlPoints must contains one point at least.");
 			VALIDATE_ARGUMENT(ValidationUtils::IsValidBspline(degreeU, knotVectorU.size(), controlPoints.size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
 			VALIDATE_ARGUMENT(ValidationUtils::IsValidBspline(degreeV, knotVectorV.size(), controlPoints[0].size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
+			for (const auto& row : controlPoints)
+			{
+				VALIDATE_ARGUMENT(row.size() == controlPoints[0].size(), "controlPoints", "All rows must have the same number of columns.");
+			}
 		}
 
 		/// <summary>
-- 
2.43.0


From 32d6695b2da5b7d00a0d4b012a3892f7f5d9047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:37 +0000
Subject: [PATCH 097/106] fix: least squares fits read out of bounds for too
 few or too many control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 93817a0..8ee7fcf 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2358,6 +2358,7 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 {
 	VALIDATE_ARGUMENT(degree >= 0 && degree <= Constants::NURBSMaxDegree, "degree", "Degree must be greater than or equal zero and not exceed the maximun degree.");
 	VALIDATE_ARGUMENT(controlPointsCount > 0, "controlPointsCount", "controlPointsCount must be greater than zero.");
+	VALIDATE_ARGUMENT(controlPointsCount > degree && controlPointsCount <= throughPoints.size(), "controlPointsCount", "controlPointsCount must be greater than degree and not exceed throughPoints size.");
 
 	VALIDATE_ARGUMENT(params.empty() || params.size() == throughPoints.size(), "params", "Params size must be equal to throughPoints size.");
 
@@ -2555,7 +2556,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 	int mc = rc + sc;
 	int n = controlPointsCount - 1;
 
-	if (mu == 0 || mc > n || controlPointsCount <= 0) {
+	if (mu == 0 || mc > n || controlPointsCount <= degree || controlPointsCount > size) {
 		return false;
 	}
 
-- 
2.43.0


From 627dcba384aff2924f376adcd79348f14b82481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:21 +0000
Subject: [PATCH 098/106] fix: the C API did not compile with gcc or clang

---
 dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp | 1 +
 dotnet/CAPI/src/Matrix4d_CAPI.cpp        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
index f32a8c0..340f237 100644
--- a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
+++ b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
@@ -12,6 +12,7 @@
 #include "KnotVectorUtils.h"
 #include <vector>
 #include <map>
+#include <cstring>
 
 int LNLIB_KV_get_continuity(
 	int degree,
diff --git a/dotnet/CAPI/src/Matrix4d_CAPI.cpp b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
index da1c9cc..83845af 100644
--- a/dotnet/CAPI/src/Matrix4d_CAPI.cpp
+++ b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
@@ -35,7 +35,7 @@ Matrix4d_C LNLIB_MATRIX_create()
 }
 Matrix4d_C LNLIB_MATRIX_create_from_xyz(XYZ_C basis_x, XYZ_C basis_y, XYZ_C basis_z, XYZ_C origin)
 {
-	return FromMatrix4d(LNLib::Matrix4d::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
+	return FromMatrix4d(LNLib::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
 }
 
 Matrix4d_C LNLIB_MATRIX_create_translation(XYZ_C vector)
-- 
2.43.0


From 444970caf02c5b01956708a0fad94376373fe23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:21 +0000
Subject: [PATCH 099/106] fix: LNLIB_POLY_power_to_bezier_matrix read its
 output argument instead of the matrix

---
 dotnet/CAPI/src/Polynomials_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/Polynomials_CAPI.cpp b/dotnet/CAPI/src/Polynomials_CAPI.cpp
index 3d26db0..3fe72f9 100644
--- a/dotnet/CAPI/src/Polynomials_CAPI.cpp
+++ b/dotnet/CAPI/src/Polynomials_CAPI.cpp
@@ -306,7 +306,7 @@ void LNLIB_POLY_power_to_bezier_matrix(
 
 	for (int i = 0; i < n; ++i) {
 		for (int j = 0; j < n; ++j) {
-			flat[i * n + j] = out_matrix[i][j];
+			flat[i * n + j] = result[i][j];
 		}
 	}
 
-- 
2.43.0


From bac18e5731e0738a9ec751f9e416ffcb7431d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:21 +0000
Subject: [PATCH 100/106] fix: LNLIB_NURBSCUR_remove_knots_by_given_bound
 always threw

---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 883b6b2..f619749 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -175,7 +175,7 @@ void LNLIB_NURBSCUR_remove_knots_by_given_bound(LN_NurbsCurve_C curve, const dou
 {
 	std::vector<double> ps(params_count);
 	for (int i = 0; i < params_count; ++i) ps[i] = params[i];
-	std::vector<double> errs;
+	std::vector<double> errs(params_count, 0.0);
 	LN_NurbsCurve result;
 	NurbsCurve::RemoveKnotsByGivenBound(FromCAPI(curve), ps, errs, maxError, result);
 	for (size_t i = 0; i < errs.size(); ++i) {
-- 
2.43.0


From e54cb047c60a3370b0b44f1185a331cc65c33fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:21 +0000
Subject: [PATCH 101/106] fix: the several curves or surfaces one C API call
 returns shared one buffer

---
 dotnet/CAPI/include/NurbsCurve_CAPI.h | 14 +++++++++++---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp   |  4 ++--
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp | 19 ++++++++++++++-----
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/dotnet/CAPI/include/NurbsCurve_CAPI.h b/dotnet/CAPI/include/NurbsCurve_CAPI.h
index d7f97c4..a4b7ee8 100644
--- a/dotnet/CAPI/include/NurbsCurve_CAPI.h
+++ b/dotnet/CAPI/include/NurbsCurve_CAPI.h
@@ -264,10 +264,18 @@ inline LNLib::LN_NurbsCurve FromCAPI(LN_NurbsCurve_C c) {
     return s;
 }
 
-inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s) {
-    static thread_local std::vector<double> g_knot_buffer;
+// Results with the same slot share a buffer: a call that returns several curves gives each its own slot.
+inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s, size_t slot = 0) {
+    static thread_local std::vector<std::vector<double>> g_knot_buffers;
     static thread_local std::vector<LNLib::XYZW> g_cp_2d_buffer;
-    static thread_local std::vector<XYZW_C> g_cp_flat_buffer;
+    static thread_local std::vector<std::vector<XYZW_C>> g_cp_flat_buffers;
+
+    if (g_knot_buffers.size() <= slot) {
+        g_knot_buffers.resize(slot + 1);
+        g_cp_flat_buffers.resize(slot + 1);
+    }
+    std::vector<double>& g_knot_buffer = g_knot_buffers[slot];
+    std::vector<XYZW_C>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 
     g_knot_buffer = s.KnotVector;
     g_cp_2d_buffer = s.ControlPoints;
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index f619749..56bbc6a 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -301,7 +301,7 @@ int LNLIB_NURBSCUR_split_at(
 	bool ok = NurbsCurve::SplitAt(FromCAPI(curve), param_t, left, right);
 	if (ok) {
 		*out_left = ToCAPI(left);
-		*out_right = ToCAPI(right);
+		*out_right = ToCAPI(right, 1);
 	}
 	return ok ? 1 : 0;
 }
@@ -338,7 +338,7 @@ int LNLIB_NURBSCUR_decompose_to_beziers(
 	auto segments = NurbsCurve::DecomposeToBeziers(FromCAPI(curve));
 	int n = std::min(static_cast<int>(segments.size()), max_segments);
 	for (int i = 0; i < n; ++i) {
-		out_segments[i] = ToCAPI(segments[i]);
+		out_segments[i] = ToCAPI(segments[i], i);
 	}
 	return n;
 }
diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index 4805100..a9b1ab6 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -17,10 +17,10 @@
 
 using namespace LNLib;
 
-static thread_local std::vector<double> g_knot_u_buffer;
-static thread_local std::vector<double> g_knot_v_buffer;
+static thread_local std::vector<std::vector<double>> g_knot_u_buffers;
+static thread_local std::vector<std::vector<double>> g_knot_v_buffers;
 static thread_local std::vector<std::vector<XYZW>> g_cp_2d_buffer;
-static thread_local std::vector<XYZW> g_cp_flat_buffer;
+static thread_local std::vector<std::vector<XYZW>> g_cp_flat_buffers;
 static thread_local std::vector<LN_NurbsSurface> g_surface_buffer;
 static thread_local std::vector<XYZ> g_xyz_buffer;
 static thread_local std::vector<UV> g_uv_buffer;
@@ -41,7 +41,16 @@ static LN_NurbsSurface FromCAPI(LN_NurbsSurface_C c) {
 	return s;
 }
 
-static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s) {
+// Results with the same slot share a buffer: a call that returns several surfaces gives each its own slot.
+static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s, size_t slot = 0) {
+	if (g_knot_u_buffers.size() <= slot) {
+		g_knot_u_buffers.resize(slot + 1);
+		g_knot_v_buffers.resize(slot + 1);
+		g_cp_flat_buffers.resize(slot + 1);
+	}
+	std::vector<double>& g_knot_u_buffer = g_knot_u_buffers[slot];
+	std::vector<double>& g_knot_v_buffer = g_knot_v_buffers[slot];
+	std::vector<XYZW>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 	g_knot_u_buffer = s.KnotVectorU;
 	g_knot_v_buffer = s.KnotVectorV;
 	g_cp_2d_buffer = s.ControlPoints;
@@ -157,7 +166,7 @@ int LNLIB_NURBSSUR_decompose_to_beziers(LN_NurbsSurface_C surface, LN_NurbsSurfa
 	auto patches = NurbsSurface::DecomposeToBeziers(FromCAPI(surface));
 	int n = std::min(static_cast<int>(patches.size()), max_patches);
 	for (int i = 0; i < n; ++i) {
-		out_patches[i] = ToCAPI(patches[i]);
+		out_patches[i] = ToCAPI(patches[i], i);
 	}
 	return n;
 }
-- 
2.43.0


From 42c1240c0d1adf296102c2bd081d4e2ea0a3fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:42 +0000
Subject: [PATCH 102/106] fix: ProjectNormal never returned for a curve that
 stands still at a knot

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8ee7fcf..ea20674 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -420,6 +420,10 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 
 	std::vector<XYZ> Blist(size);
 	XYZ T0 = ComputeRationalCurveDerivatives(curve, 1, v0)[1].Normalize();
+	for (int i = 1; i <= m && T0.IsZero(); i++)
+	{
+		T0 = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+	}
 
 	bool flag = true;
 	while (flag)
@@ -431,7 +435,7 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 		{
 			XYZ Ti = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
 
-			needReCal = Ti.CrossProduct(Blist[i - 1]).IsZero();
+			needReCal = !Ti.IsZero() && Ti.CrossProduct(Blist[i - 1]).IsZero();
 			if (needReCal)
 			{
 				break;
-- 
2.43.0


From 88e2a16b749dacef318f0c53d70cec62877c6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:15 +0000
Subject: [PATCH 103/106] fix: GetParamsOnCurve never returned for a step of
 zero or negative length

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ea20674..676d03b 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -4075,6 +4075,8 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, double giv
 
 std::vector<double> LNLib::NurbsCurve::GetParamsOnCurve(const LN_NurbsCurve& curve, double givenLength, IntegratorType type)
 {
+	VALIDATE_ARGUMENT(MathUtils::IsGreaterThan(givenLength, 0.0, Constants::DistanceEpsilon), "givenLength", "GivenLength must be greater than zero.");
+
 	std::vector<double> result;
 
 	std::vector<double> knotVector = curve.KnotVector;
-- 
2.43.0


From 370d8d9f02dbc86b56c85e3e9b3d80990bc7730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:50 +0000
Subject: [PATCH 104/106] fix: merged curves carried the joint twice, elevating
 them read out of bounds

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 676d03b..ee578c5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1730,7 +1730,7 @@ bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& ri
 		return false;
 	}
 
-	int size = tempL.ControlPoints.size() + tempR.ControlPoints.size();
+	int size = tempL.ControlPoints.size() + tempR.ControlPoints.size() - 1;
 	std::vector<XYZW> controlPoints;
 	controlPoints.reserve(size);
 	int ksize = size + degree + 1;
@@ -1739,14 +1739,14 @@ bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& ri
 	{
 		controlPoints.emplace_back(tempL.ControlPoints[i]);
 	}
-	for (int i = 0; i < tempR.ControlPoints.size(); i++)
+	for (int i = 1; i < tempR.ControlPoints.size(); i++)
 	{
-		controlPoints.emplace_back(tempR.ControlPoints[i]);
+		controlPoints.emplace_back(tempR.ControlPoints[i] * (tempL.ControlPoints.back().GetW() / tempR.ControlPoints[0].GetW()));
 	}
 
 	std::vector<double> knotVector;
 	knotVector.reserve(ksize);
-	for (int i = 0; i < tempL.KnotVector.size(); i++)
+	for (int i = 0; i < tempL.KnotVector.size() - 1; i++)
 	{
 		knotVector.emplace_back(tempL.KnotVector[i]);
 	}
-- 
2.43.0


From 58f0cdac8a9668aad1e6714ee266de8843305770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:25 +0000
Subject: [PATCH 105/106] fix: ReduceDegree underestimated the error for odd
 degrees

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ee578c5..8ddba40 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1227,7 +1227,7 @@ bool LNLib::NurbsCurve::ReduceDegree(const LN_NurbsCurve& curve, LN_NurbsCurve&
 		updatedControlPoints[r] = 0.5 * (PLr + PRr);
 		error = PLr.Distance(PRr);
 		double maxU = (degree - std::sqrt(degree)) / (2 * degree);
-		error = error * 0.5 * (1 - alpha[r]) * (MathUtils::Binomial(degree, r) * pow(maxU, r) * pow(1 - maxU, r + 1) * (1 - 2 * maxU));
+		error = error * 0.5 * (1 - alpha[r]) * (MathUtils::Binomial(degree, r) * pow(maxU, r) * pow(1 - maxU, r) * (1 - 2 * maxU));
 	}
 	if (error > tol) return false;
 
-- 
2.43.0


From f757c08a2912e07ff0e35c7c61295fb3347e8157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:29 +0000
Subject: [PATCH 106/106] fix: GetAllParamsOnCurve wraps the parameter of a
 closed curve into the domain, not near it

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8ddba40..2597879 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1479,8 +1479,11 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			}
 			else {
 				double range = maxParam - minParam;
-				while (MathUtils::IsLessThan(newT, minParam)) newT += range;
-				while (MathUtils::IsGreaterThan(newT, maxParam)) newT -= range;
+				if (newT < minParam || newT > maxParam)
+				{
+					newT = minParam + std::fmod(newT - minParam, range);
+					if (newT < minParam) newT += range;
+				}
 			}
 
 			paramT = newT;
-- 
2.43.0

